"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json
from pathlib import Path

OUT = Path(__file__).resolve().parent.parent / "properties.jsonl"
P = []


def prop(pid, title, statement, over, text, why, files, mechanism, state=None, observe=None):
    anchors = {
        "files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mechanism],
    }
    if state:
        anchors["state"] = [{"name": state}]
    if observe:
        anchors["observe_at"] = observe
    P.append(
        {
            "id": pid,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": anchors,
        }
    )


prop(
    "R01",
    "Sample numbers and times convert into each other without losing a sample",
    "For a recording with sampling frequency fs and first sample time t0, sample k lies at t0 + k/fs. "
    "sample_to_datetime and datetime_array give that time for every k; from_time_to_sample gives the first sample at or after a time, "
    "to_time_to_sample the last sample at or before it (times before/after the recording are clamped to its ends, ranges entirely outside it are refused), "
    "and to_n_samples the number of samples in an inclusive duration. In particular the time of sample k converts back to exactly k in both directions, "
    "for integer, fractional, long period and high frequency fs alike, and inclusive ranges contain exactly the samples that lie in them.",
    ["inputs"],
    "every sampling frequency, first time, sample index and query time offset (before, on, just before/after a sample, between samples, after the end)",
    "The existing tests use a handful of friendly frequencies; the conversions go through binary floating point, so they break only for particular (fs, k) pairs, e.g. fs=10 Hz and k=11.",
    ["resistics/sampling.py"],
    [
        ("to_timedelta / to_n_samples floating point conversion", "resistics/sampling.py:to_timedelta,to_n_samples"),
        ("from/to time to sample", "resistics/sampling.py:from_time_to_sample,to_time_to_sample,datetimes_to_samples"),
        ("sample to time", "resistics/sampling.py:sample_to_datetime,samples_to_datetimes,datetime_array,datetime_array_estimate"),
    ],
)
prop(
    "R02",
    "Dates survive conversion, text and JSON metadata unchanged",
    "Converting a date to the high resolution type and back, writing it as text (datetime_to_string) and reading it (datetime_from_string, to_datetime), or storing it in any metadata object, "
    "serialising that to JSON and parsing it again, gives the identical instant, to the nanosecond for pandas/Python dates and to ten attoseconds (the resolution of the underlying date arithmetic) for high resolution dates; "
    "ISO strings, pandas Timestamps, datetimes and high resolution strings naming the same instant convert to equal dates, durations convert to equal deltas.",
    ["inputs"],
    "every combination of boundary values of the date and sub-second fields, every input representation, every metadata class holding dates",
    "The defects are at field boundaries (leap days, 23:59:59.999999999, zero nanoseconds with non zero attoseconds); tests check a few mid-range dates.",
    ["resistics/sampling.py", "resistics/time.py", "resistics/common.py"],
    [
        ("text form", "resistics/sampling.py:datetime_to_string,datetime_from_string,to_datetime,to_timestamp"),
        ("pydantic field", "resistics/sampling.py:HighResDateTime.validate"),
        ("delta conversion", "resistics/sampling.py:to_timedelta,to_seconds"),
    ],
)
prop(
    "R03",
    "A time or sample selection returns exactly those samples, correctly dated",
    "Reading a recording with any combination of from_time/to_time/from_sample/to_sample with any reader, or taking a Subsection, returns exactly the samples of the full recording lying in the inclusive range, "
    "for every channel in metadata order, and metadata whose first_time, last_time and n_samples date each returned sample as the full recording does. "
    "Selections outside or inverted are refused; reading the same selection with the file metadata, with metadata passed in, from numpy or ascii files, or by a Subsection of the full read, all agree. "
    "Reading changes neither the files nor the metadata passed in.",
    ["inputs", "configurations"],
    "every (from, to) pair over sample indices and over time offsets on/between/outside samples; every reader, header length, channel count and fs in the alphabet",
    "A test samples one or two ranges; off-by-one and clamping errors show only for particular ends of the range (first, last, one sample, half-way times, header lines, single channel).",
    ["resistics/time.py", "resistics/sampling.py"],
    [
        ("range to samples", "resistics/time.py:TimeReader._get_read_samples,_get_return_metadata"),
        ("data read", "resistics/time.py:TimeReaderNumpy.read_data,TimeReaderAscii.read_data"),
        ("Subsection", "resistics/time.py:Subsection.run,TimeData.subsection,adjust_time_metadata"),
    ],
)
prop(
    "R04",
    "Any chain of time processes keeps data and metadata consistent",
    "After any sequence of time processes (subsection, nan interpolation, mean removal, add, multiply, filters, resample, decimate, timestamp shift, custom function) the TimeData is self-consistent: "
    "data has n_chans x n_samples as the metadata says, channels and channel metadata are those of the input, fs is what the sequence implies, first_time is the time of data[:,0], "
    "last_time = first_time + (n_samples-1)/fs, timestamps increase by 1/fs, station metadata is carried through, and the values are those of the composed definitions.",
    ["histories", "inputs"],
    "every sequence of processes up to the depth bound, from several starting recordings",
    "Tests run each process once on one fresh input; drift of metadata against data, or dependence on earlier processes, needs chains.",
    ["resistics/time.py"],
    [
        ("metadata adjustment", "resistics/time.py:adjust_time_metadata,new_time_data"),
        ("processes", "resistics/time.py:Subsection,InterpolateNans,RemoveMean,Add,Multiply,LowPass,HighPass,BandPass,Notch,Resample,Decimate,ShiftTimestamps,ApplyFunction"),
    ],
    state="TimeMetadata (fs, first_time, last_time, n_samples, chans) and TimeData.data",
)
prop(
    "R05",
    "Processing steps leave their input untouched and log one history record each",
    "Running any processing step, reader or writer (time processes, decimation, windowing, Fourier transform, evaluation frequencies, smoothing, calibration, data writers, configuration from dictionaries) "
    "never changes the object it was given: values, metadata, channel metadata and history stay as they were, so the same input can be reused with the same result, "
    "and the output carries the input's history in order plus exactly one new record naming the process and its parameters; input and output never share metadata or history, and outputs do not share mutable state with each other.",
    ["histories"],
    "every tree of steps up to the depth bound, including running two different steps on one input and then reusing the input",
    "Aliasing shows only when an input is reused after a step; tests build a fresh input for each call.",
    ["resistics/time.py", "resistics/decimate.py", "resistics/window.py", "resistics/spectra.py", "resistics/calibrate.py", "resistics/common.py"],
    [
        ("history", "resistics/common.py:get_history,History.add_record,ResisticsProcess._get_record"),
        ("metadata copies", "resistics/time.py:new_time_data,Subsection.run,Resample.run,Decimate.run,ShiftTimestamps.run; writers' run in time/decimate/window/spectra"),
    ],
    state="metadata.history.records, chans_metadata, data arrays",
)
prop(
    "R06",
    "Sample-wise time processes do what they define, on the named channels only",
    "InterpolateNans replaces each run of NaNs by linear interpolation between its neighbours (end values held at the ends) and changes nothing else; RemoveMean subtracts each channel's own mean; "
    "Add and Multiply apply a scalar to all channels or per-channel values to the named channels only; ApplyFunction applies each function to its channel and leaves the other channels as they were; "
    "ShiftTimestamps moves the time origin by the shift (0 < shift < 1/fs) and gives the linearly interpolated values at the new times, one sample fewer. For float32, float64 and integer data and any channel count and order.",
    ["inputs"],
    "every NaN pattern up to the length bound, every subset of named channels, every small value array over a value alphabet, dtypes and shapes",
    "Tests use one pattern each; errors hide in particular NaN positions (leading, trailing, all-but-one), partial channel dictionaries and dtypes.",
    ["resistics/time.py"],
    [
        ("InterpolateNans", "resistics/time.py:InterpolateNans"),
        ("Add/Multiply/RemoveMean/ApplyFunction", "resistics/time.py:Add,Multiply,RemoveMean,ApplyFunction"),
        ("ShiftTimestamps", "resistics/time.py:ShiftTimestamps"),
    ],
)
prop(
    "R07",
    "Filtering and rate changes keep in-band signals in place and remove the rest",
    "Low pass, high pass, band pass and notch filters, Resample and Decimate are linear, act on each channel separately, and are zero phase: away from the record ends a sinusoid well inside the pass band comes out with the same amplitude and phase at the same times, "
    "and one well inside the stop band (including everything above the new Nyquist after a rate change) is removed. Decimate by a factor gives every factor-th sample time from first_time for any factor and any max_single_factor; "
    "cutoffs beyond Nyquist are refused. A constant offset is kept (low pass, notch, rate changes) or removed (high and band pass) over the whole record, its ends included. Holds for any sampling frequency, scaled alike, and integer recordings are processed as the values they are.",
    ["inputs", "configurations"],
    "every process x parameter x sampling frequency x test frequency in the alphabet, all channel counts",
    "Tests compare with a stored call of the same scipy function; phase, time and frequency scaling errors appear only for particular fs, factors and factorisations.",
    ["resistics/time.py"],
    [
        ("filters", "resistics/time.py:LowPass,HighPass,BandPass,Notch"),
        ("rate changes", "resistics/time.py:Resample,Decimate._get_downsample_factors,_prime_factorisation"),
    ],
)
prop(
    "R08",
    "Every decimation scheme is internally consistent and can see its frequencies",
    "For every sampling frequency and decimation setup, the parameters produced satisfy: n_levels x per_level evaluation frequencies, listed level by level; default frequencies start at fs/4 and decrease by sqrt(2); user frequencies are kept as given, and lists that would need factors to decrease with level are refused; "
    "level sampling frequency = fs / total factor; total factor = product of the increments, each a power of div_factor and the largest that keeps the level's sampling frequency at least 4 times its highest evaluation frequency (never decimating when that is impossible); setups that cannot be satisfied (a division factor below 2, a level without a frequency above 0 Hz) are refused rather than never answered; "
    "factors do not decrease with level; per level accessors, to_numpy and to_dataframe agree and out of range levels and indices are refused.",
    ["configurations", "inputs"],
    "every (fs, n_levels, per_level, div_factor, evaluation frequency list) in the alphabet",
    "Only a couple of setups are tested; floating point comparisons with 4*f make the factor wrong for isolated (fs, div_factor) pairs.",
    ["resistics/decimate.py"],
    [
        ("evaluation frequencies", "resistics/decimate.py:get_eval_freqs,get_eval_freqs_min,get_eval_freqs_size"),
        ("factors", "resistics/decimate.py:DecimationSetup._get_factors,_get_decimation_factor,DecimationParameters"),
    ],
)
prop(
    "R09",
    "Each decimated level is the recording at that level's rate, dated correctly",
    "Decimating a recording gives, for each level of the parameters in order until a level would have fewer than min_samples samples, data sampled at that level's fs, starting at the recording's first_time, whose values are the low-passed recording at those times "
    "(an in-band signal keeps amplitude and phase at every level, an increment of 1 repeats the previous level exactly), with level metadata (fs, n_samples, first/last time, timestamps) matching the data, all channels in order and station metadata carried through. "
    "A level present never depends on deeper levels being requested.",
    ["inputs", "configurations"],
    "every record length around the min_samples thresholds x decimation setup x decimator option x channel count",
    "Tests decimate one recording; errors appear at level-count thresholds and for particular increments.",
    ["resistics/decimate.py", "resistics/time.py"],
    [
        ("level loop", "resistics/decimate.py:Decimator.run,_decimate,_resample,_get_metadata"),
        ("accessors", "resistics/decimate.py:DecimatedData.get_level,get_timestamps"),
    ],
)
prop(
    "R10",
    "Windows are aligned in absolute time and contain exactly their samples",
    "For a reference time, global window w of a level always covers the win_size samples that start with the sample at, or when the sample grid is off the window grid immediately before, ref_time + w*(win_size-olap_size)/fs, whichever recording it is cut from, so that recordings starting at different times have identical contents in the windows they share. "
    "Windowing a level yields exactly the global windows that lie completely inside the data, in order, each holding exactly those samples of every channel, with the index offset mapping local to global numbers, "
    "and get_win_table, get_first_and_last_win and the window start/end times agree with that. "
    "Levels with fewer than min_n_wins windows end the windowing; no window is lost, repeated or shifted for any fs, window size, overlap, reference time offset or record length.",
    ["inputs", "configurations"],
    "every (fs, win_size, olap_size, reference offset, record length, channel count, level count) in the alphabet",
    "Window arithmetic goes through floating point ceil/floor; tests use a few friendly combinations, while a lost or shifted window occurs only for particular offsets and rates.",
    ["resistics/window.py", "resistics/sampling.py"],
    [
        ("window numbering", "resistics/window.py:datetime_to_win,win_to_datetime,get_first_and_last_win,get_win_table"),
        ("window cutting", "resistics/window.py:Windower.run,_get_level_data,_get_level_metadata"),
    ],
    state="WindowedLevelMetadata.index_offset, n_wins",
)
prop(
    "R11",
    "Window parameters and accessors address the right window, level and channel",
    "WindowSetup gives one (size, overlap) per level, from user lists truncated to the levels present or from fs and minimum sizes, with 0 < overlap < size; too short lists are refused; WindowerTarget's windows obey the same time alignment relative to the reference time recorded with them. "
    "get_level, get_local, get_global, get_chan (windowed data) and get_level, get_chan, get_chans, get_freq, get_timestamps (spectra) return exactly the addressed part: global number = local number + index offset, channels by name in any order, window start times = the time of the window's first sample; "
    "out of range levels, windows and unknown channels are refused.",
    ["inputs", "configurations"],
    "every level, local and global window, channel subset and order; every setup in the alphabet",
    "Accessors are only exercised with zero index offset in tests, where local and global numbers coincide.",
    ["resistics/window.py", "resistics/spectra.py"],
    [
        ("setup", "resistics/window.py:WindowSetup,WindowParameters,WindowerTarget"),
        ("accessors", "resistics/window.py:WindowedData.get_local,get_global,get_chan; resistics/spectra.py:SpectraData"),
        ("window times", "resistics/window.py:get_win_starts,get_win_ends"),
    ],
)
prop(
    "R12",
    "Spectra are the windowed Fourier transform read off at evaluation frequencies",
    "FourierTransform gives, for every level, window and channel separately, the orthonormal real FFT of the detrended, tapered window zero padded to the FFT length, at the stated frequencies; window and channel order and index offsets are kept, and each window is treated independently of its neighbours, of other levels and of the number of windows. "
    "EvaluationFreqs gives the linear interpolation of each spectrum at the level's evaluation frequencies, in order, and spectra smoothers filter along frequency only with the stated length or sigma. "
    "So the whole step is linear and its metadata (freqs, n_freqs, fs per level) describes the data.",
    ["inputs", "configurations"],
    "every unit impulse (window, channel, sample) basis signal and combinations, win_size, taper, detrend option, dtype, n_wins and n_chans including 1, evaluation frequency position",
    "Tests check one spectrum; cross-talk or axis errors show only for single channel/window shapes, odd FFT lengths, frequencies exactly on bins or past the last one.",
    ["resistics/spectra.py"],
    [
        ("FFT", "resistics/spectra.py:FourierTransform"),
        ("evaluation frequencies", "resistics/spectra.py:EvaluationFreqs"),
        ("smoothing", "resistics/spectra.py:SpectraSmootherUniform,SpectraSmootherGaussian"),
    ],
)
prop(
    "R13",
    "Calibration removes exactly the sensor response of the matching channels",
    "Calibrating divides each selected channel's spectra, at each frequency of each level, by magnitude*exp(i*phase) of that channel's own sensor, linearly interpolated in the calibration table (end values held), "
    "using the first reader for which a readable file exists for the channel's sensor/serial; channels without one, or not selected, are unchanged bit for bit. "
    "JSON and TXT files with the same table (any row order, phase in degrees or radians) give the same result, and missing or malformed files never corrupt other channels.",
    ["inputs", "configurations", "fault_sequences"],
    "every assignment of {no file, JSON, TXT, both, malformed} to channels x reader order x channel selection x shapes (1 window, 1 frequency) x table/frequency positions",
    "Tests check one channel with one file; the interplay of readers, missing files and shapes is combinatorial.",
    ["resistics/calibrate.py"],
    [
        ("deconvolution", "resistics/calibrate.py:Calibrator._calibrate,_interpolate,SensorCalibrator.run"),
        ("file selection and parsing", "resistics/calibrate.py:SensorCalibrationReader,SensorCalibrationJSON,SensorCalibrationTXT"),
    ],
)
prop(
    "R14",
    "Every data product is read back exactly as it was written",
    "Time, decimated, windowed and spectra data, calibration data, project metadata and solutions written by their writers and read by their readers come back equal: values, dtypes and shapes bit for bit (text formats to their printed precision), all levels, channels, channel metadata, station metadata, dates and history "
    "(plus the write and read records). This holds after any sequence of writes and overwrites to the same directory by the same or other data, for writing data back over the files it was read from, and repeatedly.",
    ["histories", "inputs"],
    "every sequence of write/overwrite/read operations up to the depth bound over data with different shapes, levels and dtypes",
    "Tests do one write and read; stale files, lazily mapped inputs and accumulated history need sequences.",
    ["resistics/time.py", "resistics/decimate.py", "resistics/window.py", "resistics/spectra.py", "resistics/common.py", "resistics/regression.py"],
    [
        ("writers and readers", "TimeWriterNumpy/TimeReaderNumpy, TimeWriterAscii, DecimatedDataWriter/Reader, WindowedDataWriter/Reader, SpectraDataWriter/Reader"),
        ("metadata JSON", "resistics/common.py:WriteableMetadata.write"),
    ],
    state="files on disk",
)
prop(
    "R15",
    "Refused or interrupted writes never pass for good data",
    "A writer with overwrite=False given an existing directory raises and changes nothing in it. If writing into a new directory stops at any point (any file operation fails or is cut short), reading that directory afterwards either fails or returns the complete data; "
    "it never returns partial or mixed data as a recording. Loading a project containing such a measurement skips it and still loads all the others.",
    ["crash_points", "fault_sequences"],
    "every file system operation of every writer as the failing one, every truncation point class of each file",
    "Requires injecting a fault at each write in turn; no test does.",
    ["resistics/common.py", "resistics/time.py", "resistics/decimate.py", "resistics/window.py", "resistics/spectra.py", "resistics/letsgo.py"],
    [
        ("overwrite check", "resistics/common.py:ResisticsWriter._check_dir"),
        ("write order data then metadata", "writers' run methods"),
        ("loader tolerance", "resistics/letsgo.py:ProjectLoader._load_measurement"),
    ],
    state="directory contents during a write",
)
prop(
    "R16",
    "Rows gathered for regression are simultaneous across sites and belong together",
    "The selection for a set of sites contains, per level, exactly the global windows for which every site has evaluated data at that sampling frequency, each attributed to a measurement that has it. "
    "Gathered data has, for each evaluation frequency, one row per selected window, and row i of the output, input and cross arrays is the same global window, taken from the right site, measurement, level, frequency index and channels in the transfer function's order; the quick path gathers the same rows for one measurement. "
    "No window is lost, duplicated or exchanged for any layout of overlapping, touching, gapped or nested measurements, differing level counts, other sampling frequencies or other configurations being present.",
    ["configurations", "inputs"],
    "every layout of up to 3 measurements over up to 3 sites on a small window grid x levels present x site roles (out, in, cross)",
    "Tests use one project; misalignment needs particular overlaps between measurements of several sites.",
    ["resistics/gather.py", "resistics/project.py"],
    [
        ("selection", "resistics/gather.py:get_site_level_wins,get_site_wins,Selector.run,Selection"),
        ("gathering", "resistics/gather.py:ProjectGather._get_site_data,_populate_data,_get_indices,QuickGather.run"),
    ],
)
prop(
    "R17",
    "Regression recovers the transfer function exactly from noise-free data",
    "If the output channels equal a complex transfer function applied to the input channels at each evaluation frequency, preparing and solving (any preparer, any solver) returns that tensor, for any number and names of output, input and cross channels, any number of windows at least the number of unknowns, "
    "different tensors at different frequencies, and local or remote reference cross channels. Solution components, tensors, frequencies and periods refer to the right output/input pair and frequency, and survive writing to and reading from file.",
    ["inputs", "configurations"],
    "every (n_out, n_in, n_cross, n_wins, n_freqs) in bounds with basis tensors, every preparer and solver",
    "Tests use one impedance tensor shape; mixed real/imaginary interleaving or channel order errors can cancel for particular shapes.",
    ["resistics/regression.py", "resistics/transfunc.py"],
    [
        ("regression preparation", "resistics/regression.py:RegressionPreparerGathered,RegressionPreparerSpectra"),
        ("tensor reconstruction", "resistics/regression.py:SolverScikit,Solution,resistics/transfunc.py:Component,get_component_key"),
    ],
)
prop(
    "R18",
    "Configurations, processes and transfer functions rebuild from their JSON",
    "For every registered process, transfer function and configuration with any parameters, parsing its JSON or dictionary form gives an object of the same class with the same parameters and the same behaviour (including user subclasses and lists of processes in order); "
    "the caller's dictionary is left as it was, so it can be used again; parameters recorded in history rebuild the process; unknown names or invalid parameters are refused.",
    ["configurations"],
    "every process class x parameter assignments in the alphabet x {dict, JSON} x repeated use, configurations composed of them",
    "Tests round trip one configuration once; forgotten parameters and mutated dictionaries show only for particular classes or on second use.",
    ["resistics/common.py", "resistics/config.py", "resistics/transfunc.py"],
    [
        ("process registry", "resistics/common.py:ResisticsProcess.validate,parameters"),
        ("transfer function registry", "resistics/transfunc.py:TransferFunction.validate"),
        ("configuration", "resistics/config.py:Configuration"),
    ],
)
prop(
    "R19",
    "Project operations write only their own outputs and never harm existing data",
    "Over any sequence of project operations (create, load, reload, process time, process to evaluation frequencies, estimate transfer functions, fetch solutions): raw measurements and calibration files are never changed except where process_time is told to write; "
    "creating a project over an existing one is refused and leaves it as it was; each operation writes only in the place for its site, measurement, configuration and solution name, so results of other measurements, configurations, sampling frequencies, transfer functions and postfixes are untouched; "
    "get_solution returns the latest solution estimated under exactly that name; repeating an operation on unchanged inputs gives the same data; reload sees what is on disk.",
    ["histories"],
    "every sequence of operations up to the depth bound on a two-site project with two configurations",
    "Cross-talk between configurations, sites and runs needs multi-step histories on one project directory.",
    ["resistics/letsgo.py", "resistics/project.py"],
    [
        ("operations", "resistics/letsgo.py:new,load,reload,process_time,process_time_to_evals,process_evals_to_tf,get_solution"),
        ("paths and names", "resistics/project.py:get_meas_time_path,get_meas_evals_path,get_results_path,get_solution_name"),
    ],
    state="project directory tree",
)
prop(
    "R20",
    "A loaded project describes exactly the data on disk",
    "Loading finds exactly the sites and the measurements readable with the configured readers, each bound to the first reader that can read it and to its own metadata; unreadable folders are skipped without affecting others; a project missing its file or a required subfolder is refused. "
    "Begin and end times, fs lists, get_measurements(fs), get_sites(fs), get_concurrent (sites whose time span intersects), iteration, indexing and the dataframes agree with the measurements; unknown names are refused.",
    ["configurations"],
    "every layout of up to 3 sites with up to 2 measurements over a small time grid, readable/unreadable kinds, reader orders, missing subfolders",
    "Tests load one fixed project; interval intersection and reader fallback errors need specific layouts.",
    ["resistics/letsgo.py", "resistics/project.py"],
    [
        ("loader", "resistics/letsgo.py:ProjectLoader"),
        ("queries", "resistics/project.py:Project,Site"),
    ],
)
prop(
    "R21",
    "The whole processing flow recovers the transfer function of recorded signals",
    "For time series in which the outputs are a known linear combination (with or without a one-sided delay) of the inputs, quick_tf and the project flow (process_time_to_evals then process_evals_to_tf) return that transfer function at each evaluation frequency, for each configuration; "
    "the two flows agree on the same measurement, quick_spectra equals the composed steps, sensor responses applied to a channel are removed when the calibration file is present, remote and intersite site roles take the channels from the named sites, "
    "measurements of one site recorded in pieces combine, and a constant time offset of everything or a rescaling of a channel changes the result only as physics says.",
    ["configurations", "inputs"],
    "every combination of configuration options, channel order, site roles, measurement layout and transfer function in the alphabet",
    "An end to end error can be hidden from any single-step test: steps that are each consistent with their own tests may disagree about order, offset or units.",
    ["resistics/letsgo.py", "resistics/config.py", "resistics/gather.py", "resistics/regression.py", "resistics/window.py", "resistics/decimate.py"],
    [
        ("quick flow", "resistics/letsgo.py:quick_read,quick_spectra,quick_tf"),
        ("project flow", "resistics/letsgo.py:process_time_to_evals,process_evals_to_tf,run_*"),
    ],
)
prop(
    "R22",
    "Downsampled plots show real samples at their true times",
    "Downsampling for plots returns at most max_pts points, always including the first and last, with strictly increasing positions, each point being a sample of the data at its own index; data with max_pts or fewer points, or without limit, is returned whole. "
    "Figures of time, decimated and spectra data (all levels, stacks and sections by time) therefore place each plotted value at that sample's timestamp or frequency in the subplot of the right channel, for every channel subset and order, number of levels and number of groups; "
    "figures of calibrations, impedance tensors (apparent resistivity 0.2 T |Z|^2 at the period 1/f), tippers and timelines show the given values.",
    ["inputs"],
    "every length and max_pts in bounds over a value alphabet, and figures built for every channel subset and decimation level",
    "Tests check a few points of one curve; index/value mismatches appear for particular lengths, dtypes and sizes.",
    ["resistics/plot.py", "resistics/time.py", "resistics/decimate.py", "resistics/spectra.py"],
    [
        ("downsampling", "resistics/plot.py:lttb_downsample,apply_lttb"),
        ("figures", "resistics/time.py:TimeData.plot; resistics/decimate.py:DecimatedData.plot; resistics/spectra.py:SpectraData.plot"),
    ],
)

prop(
    "R23",
    "Recordings and metadata answer for the right channel, sample and level",
    "Channel metadata derives electric, magnetic or auxiliary kind from the standard names unless given; n_chans, dt, nyquist, duration, first/last time and channel lookups (by kind, by name, in recording order) of metadata and data describe exactly what was recorded, and unknown names or levels are refused. "
    "Getting or setting a channel by name touches that row only (a refused access changes nothing), copies share nothing with the original, and the same holds for every level of decimated, windowed and spectra data. "
    "Timestamps of samples are first_time + k / fs: exact, or to the nanosecond where estimated.",
    ["inputs", "histories"],
    "every channel list and order in the alphabet, every kind of name, sampling frequency, start time, number of samples and levels, and access sequences",
    "Tests read one or two named channels of one fixed recording; wrong rows, off by one levels and drifting timestamps need other orders and lengths.",
    ["resistics/time.py", "resistics/decimate.py", "resistics/spectra.py", "resistics/window.py", "resistics/common.py"],
    [
        ("metadata", "resistics/time.py:ChanMetadata,TimeMetadata,get_time_metadata,adjust_time_metadata"),
        ("data access", "resistics/time.py:TimeData.__getitem__,__setitem__,get_chan,set_chan,chan_to_row,get_timestamps,copy"),
        ("levels", "resistics/decimate.py:DecimatedData; resistics/spectra.py:SpectraData; resistics/window.py:WindowedLevelMetadata"),
    ],
)
prop(
    "R24",
    "Transfer functions: channels, printed form, solutions and derived quantities",
    "Transfer functions keep the channels they are given (cross channels default to the inputs, in a list of their own), count components and regression parameters accordingly, and print each output as the sum over inputs of its own component. "
    "Solutions return the component, tensor and periods of each evaluation frequency, apparent resistivity is 0.2 T |Z|^2, impedance phase is in degrees and continuous over frequency with Ex outputs turned by half a turn, tipper length and angles are those of the complex pair. "
    "Figures of impedances and tippers place these values at the period 1/f of the right component.",
    ["inputs"],
    "every transfer function with up to 3 channels per role over a name alphabet, tensors over a grid of complex values, every component and frequency list in bounds",
    "Tests compare one tensor at a few points; quadrant, wrap-around, ordering and default sharing errors need specific values.",
    ["resistics/transfunc.py", "resistics/regression.py"],
    [
        ("transfer functions", "resistics/transfunc.py:TransferFunction,ImpedanceTensor,Tipper,get_transfer_function"),
        ("solution", "resistics/regression.py:Solution"),
        ("derived", "resistics/transfunc.py:ImpedanceTensor.get_resistivity,get_phase,to_dataframe; Tipper.get_length,get_real_angle,get_imag_angle"),
    ],
)
prop(
    "R25",
    "Every object and error describes itself completely and without changing",
    "The text of each model (metadata, parameters, processes, configurations, solutions, projects) parses back to its JSON content, summaries and tables of levels show one row per level with its own values, and printing changes nothing. "
    "Each error names the path, channel, site, measurement or file it is about and carries it in its fields and message; strings of arrays and of sampling frequencies show the values to the given format, and different sampling frequencies (to 1 uHz) have different names in paths. "
    "Path helpers report exactly the files and directories present and refuse missing ones or the wrong kind.",
    ["inputs", "configurations"],
    "every registered process over its parameter grid, every metadata and data class up to 12 levels, every error class, every directory content up to 3 entries",
    "Tests print a few objects; errors raised while reporting errors, or text that misattributes values, hide in rarely used classes.",
    ["resistics/common.py", "resistics/errors.py", "resistics/decimate.py", "resistics/window.py", "resistics/project.py"],
    [
        ("text forms", "resistics/common.py:ResisticsModel,ResisticsData,ResisticsBase"),
        ("errors", "resistics/errors.py"),
        ("helpers", "resistics/common.py:is_file,assert_file,is_dir,assert_dir,dir_contents,array_to_string,fs_to_string"),
    ],
)

OUT.write_text("".join(json.dumps(p) + "\n" for p in P))
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
print(len(P), "properties")
