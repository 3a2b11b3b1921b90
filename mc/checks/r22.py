"""R22 downsampled plots show real samples at their true times"""
import itertools
import math
import warnings
from fractions import Fraction

import numpy as np
import pandas as pd

from build import T0, T0_ODD, spectra_data, time_at, time_data
from ref import secs_between

import resistics.decimate as D
import resistics.plot as PL
import resistics.time as T
from resistics.transfunc import Component, ImpedanceTensor, Tipper

ID = "R22"
LEVEL = "exploration"
RULE = (
    "all sequences over {-1, 0, 1} up to length 7 and deterministic sequences of every length up to the bound, with every limit on the "
    "number of points, all dtypes, NaNs at every position and pair of positions, lengths around 2^24; figures of time, decimated and "
    "spectra data (all, stacked by time, sections), calibrations, transfer functions and timelines for every non-empty ordered "
    "channel subset, number of levels 1..12, sampling frequencies, first times and limits; every trace is compared with the data: "
    "subplot, positions, values; non-trivial: distinct (data, options)"
)
ASSUMPTIONS = ["positions on time axes are compared with a tolerance of one microsecond (figures use datetime64 in nanoseconds)"]
CHANS = ["Ex", "Hy", "Hz"]


def BOUNDS(tier):
    return {"length": 120 if tier == "quick" else 400, "exhaustive_length": 7 if tier == "quick" else 9, "levels": 12, "huge": 2**24 + 1000}


def jobs(tier):
    for n in range(1, BOUNDS(tier)["exhaustive_length"] + 1):
        for k in range(1 if n < 7 else 3 ** (n - 6)):
            yield {"kind": "sequences", "n": n, "part": k}
    for k in range(8):
        yield {"kind": "lengths", "part": k}
    yield {"kind": "nans"}
    yield {"kind": "dtypes"}
    yield {"kind": "huge"}
    for k in range(PARTS):
        yield {"kind": "time", "part": k}
    for kind in ("decimated", "spectra", "stacks", "sections", "transfunc", "timelines"):
        for k in range(PARTS):
            yield {"kind": kind, "part": k}
    yield {"kind": "calibration"}


PARTS = 5
# every how many combinations one is drawn in the quick tier, coprime to the numbers of options
STRIDE = {"time": 5, "decimated": 5, "spectra": 5, "stacks": 7, "sections": 7, "transfunc": 5, "timelines": 1}


class Picker(object):
    """Splits the combinations of a job over its parts"""

    def __init__(self, job, tier):
        self.n = -1
        self.part = job["part"]
        self.stride = STRIDE[job["kind"]] if tier == "quick" else 1

    def __call__(self):
        self.n += 1
        return self.n % self.stride == 0 and (self.n // self.stride) % PARTS == self.part


def run_job(job, ctx):
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    globals()["job_" + job["kind"]](job, ctx)


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))


def selected(ctx, indices, values, data, max_pts, key):
    """What the property says about a selection of points"""
    n = data.size
    indices = np.asarray(indices)
    ok = ctx.check(indices.size == np.asarray(values).size and indices.ndim == 1, key + "-sizes", f"{indices.shape} {np.shape(values)}")
    if max_pts is None or n <= max_pts:
        return ok and ctx.check(same(indices, np.arange(n)) and same(values, data), key + "-whole", f"n={n} max_pts={max_pts}: {indices}")
    ok &= ctx.check(0 < indices.size <= max_pts, key + "-size", f"{indices.size} points with a limit of {max_pts}")
    ok &= ctx.check(bool(np.all(indices[1:] > indices[:-1])), key + "-increasing", f"n={n} max_pts={max_pts}: {indices[:20]}")
    ok &= ctx.check(bool(np.all((indices >= 0) & (indices < n))), key + "-range", f"n={n} max_pts={max_pts}: {indices[-3:]}")
    if not ok:
        return False
    if max_pts >= 2:
        ok &= ctx.check(indices[0] == 0 and indices[-1] == n - 1, key + "-ends", f"n={n} max_pts={max_pts}: {indices[[0, -1]]}")
    return ok & ctx.check(same(values, data[indices.astype(np.int64)]), key + "-values", f"n={n} max_pts={max_pts}: {np.asarray(values)[:10]} expected {data[indices.astype(np.int64)][:10]}")


def check_lttb(ctx, data, max_pts):
    before = data.copy()
    idx, values = PL.apply_lttb(data, max_pts)
    selected(ctx, idx, values, data, max_pts, "apply")
    ctx.check(same(before, data), "apply-input-changed", "")
    ctx.outcome((data.size, max_pts, len(idx)))


def job_sequences(job, ctx):
    """All short sequences, all limits"""
    n = job["n"]
    head = [()] if n < 7 else [tuple(itertools.product((-1.0, 0.0, 1.0), repeat=n - 6))[job["part"]]]
    for seq in itertools.product((-1.0, 0.0, 1.0), repeat=n - len(head[0])):
        data = np.array(head[0] + seq)
        for max_pts in [None] + list(range(1, n + 2)):
            ctx.case({"job": job, "seq": data.tolist(), "max_pts": max_pts}, check_lttb, ctx, data, max_pts)


def wave(n, key=0):
    i = np.arange(n, dtype=float)
    return np.sin(i * (0.31 + 0.07 * key)) * (1 + (i % 7 == 3) * 5) + 0.01 * i * (key - 1)


def job_lengths(job, ctx):
    """Every length, every limit"""
    def both(data, max_pts):
        check_lttb(ctx, data, max_pts)
        x = np.arange(data.size) * 0.5 - 3
        nx, ny = PL.lttb_downsample(x, data, max_pts)
        idx = np.rint((nx + 3) * 2).astype(int)
        if ctx.check(np.allclose(idx * 0.5 - 3, nx), "downsample-x", f"{nx}"):
            selected(ctx, idx, ny, data.astype(float), max_pts, "downsample")
        ctx.refuses(lambda: PL.lttb_downsample(x[:-1], data, max_pts), "downsample-mismatch", "accepted different sizes")

    for n in range(1, BOUNDS(ctx.tier)["length"] + 1):
        if n % 8 != job["part"]:
            continue
        for max_pts in range(1, n + 2):
            key = (n + max_pts) % 3
            ctx.case({"job": job, "n": n, "max_pts": max_pts}, both, np.round(wave(n, key) * 64) / 64, max_pts)


def job_nans(job, ctx):
    n = 24
    for a in range(n):
        for b in range(a, n):
            for max_pts in (2, 3, 5, 10, 23, 24):
                data = wave(n)
                data[[a, b]] = np.nan
                ctx.case({"job": job, "nans": [a, b], "max_pts": max_pts}, check_lttb, ctx, data, max_pts)
    for a in range(n):
        for length in range(2, n - a + 1):
            for max_pts in (5, 10):
                data = wave(n)
                data[a : a + length] = np.nan
                ctx.case({"job": job, "block": [a, length], "max_pts": max_pts}, check_lttb, ctx, data, max_pts)


def job_dtypes(job, ctx):
    base = [0, 1, -1, 2**24 + 1, 2**24 + 3, -(2**24) - 5, 7, 2**30 + 1, 5, 2**30 + 3, 11, 13]
    for dtype in (np.int64, np.int32, np.float64, np.float32):
        for rot in range(len(base)):
            for max_pts in (2, 3, 4, 5, 8, 11):
                data = np.array(base[rot:] + base[:rot]).astype(dtype)
                ctx.case({"job": job, "dtype": np.dtype(dtype).name, "rot": rot, "max_pts": max_pts}, check_lttb, ctx, data, max_pts)
    for offset in (1e6, 1e9, 1e15, -1e12):
        for max_pts in (2, 3, 7, 20):
            data = wave(40) + offset
            ctx.case({"job": job, "offset": offset, "max_pts": max_pts}, check_lttb, ctx, data, max_pts)
    for scale in (1e-300, 1e-40, 1e40, 1e300):
        for max_pts in (2, 3, 7, 20):
            ctx.case({"job": job, "scale": scale, "max_pts": max_pts}, check_lttb, ctx, wave(40) * scale, max_pts)


def job_huge(job, ctx):
    """Numbers of samples above which single precision has no integers"""
    for n in (2**24 - 1, 2**24 + 1, 2**24 + 1000):
        i = np.arange(n)
        data = ((i * 7919) % 1009).astype(np.float64)
        for max_pts in (3, 1000, 10_000):
            ctx.case({"job": job, "n": n, "max_pts": max_pts}, check_lttb, ctx, data, max_pts)
    n = 2**24 + 1000
    td = time_data(512.0, np.zeros((1, n), dtype=np.float32), ["Ex"])
    td.data[0, :] = (np.arange(n) * 31) % 101

    def plot():
        fig = td.plot(max_pts=2000)
        check_time_trace(ctx, fig.data[0], td.data[0], td.metadata, 2000, "huge-plot")

    ctx.case({"job": job, "plot": n}, plot)


# -- figures
def subplot_row(fig, trace):
    """Index of the subplot (counted from the top) a trace is drawn in"""
    axis = trace.yaxis or "y"
    tops = sorted([fig.layout[k].domain[1] for k in fig.layout if k.startswith("yaxis")], reverse=True)
    return tops.index(fig.layout["yaxis" + axis[1:]].domain[1])


def row_title(fig, row):
    """Title of a subplot, the annotations are ordered as the subplots are"""
    tops = sorted(((a.y, a.text) for a in fig.layout.annotations if a.text.startswith("Channel")), reverse=True)
    return tops[row][1]


def y_title(fig, row):
    axes = sorted((fig.layout[k] for k in fig.layout if k.startswith("yaxis")), key=lambda a: -a.domain[1])
    return axes[row].title.text


def ns_of(x, t0):
    """Positions on a time axis in seconds from t0, as fractions"""
    base = pd.Timestamp(t0.isoformat()[:26])
    rest = secs_between(t0, time_at(T0, Fraction((base - pd.Timestamp("2021-01-01")).value, 10**9)))
    values = pd.DatetimeIndex(x).astype(np.int64) if not hasattr(x, "asi8") else x.asi8
    return [Fraction(int(v) - base.value, 10**9) - rest for v in values]


def check_time_trace(ctx, trace, data, metadata, max_pts, key):
    secs = ns_of(trace.x, metadata.first_time)
    fs = Fraction(metadata.fs)
    idx = []
    for s in secs:
        k = round(s * fs)
        if abs(Fraction(k) / fs - s) > Fraction(1, 10**6):
            return ctx.check(False, key + "-times", f"a point at {float(s)} s from the first time, no sample is there (fs {float(fs)})")
        idx.append(int(k))
    return selected(ctx, np.array(idx), trace.y, data, max_pts, key)


def job_time(job, ctx):
    """Time figures: channel subsets, limits, first times, given figures"""
    def one(fs, n, t0, chans, max_pts, own_fig):
        data = np.array([wave(n, k) + 10 * k for k in range(3)])
        td = time_data(fs, data, CHANS, t0=t0)
        if own_fig:
            fig = PL.get_time_fig(list(chans), {c: "mV" for c in chans})
            out = td.plot(fig=fig, chans=list(chans), max_pts=max_pts, color="red", legend="mine")
            ctx.check(out is fig, "time-fig", "a new figure was returned")
        else:
            fig = td.plot(chans=None if chans is None else list(chans), max_pts=max_pts)
        want = CHANS if chans is None else list(chans)
        ctx.require(len(fig.data) == len(want), "time-traces", f"{len(fig.data)} traces for {want}")
        for trace in fig.data:
            row = subplot_row(fig, trace)
            chan = want[row]
            ctx.check(row_title(fig, row) == f"Channel {chan}", "time-title", f"subplot {row} of {want} is titled {row_title(fig, row)}")
            if not own_fig:
                ctx.check(y_title(fig, row) == td.metadata.chans_metadata[chan].chan_type, "time-label", f"{y_title(fig, row)}")
            check_time_trace(ctx, trace, data[CHANS.index(chan)], td.metadata, max_pts, "time")
            if own_fig:
                ctx.check(trace.line.color == "red" and trace.name == "mine" and trace.legendgroup == "mine", "time-style", f"{trace.name}")
        ctx.check(sorted(subplot_row(fig, t) for t in fig.data) == list(range(len(want))), "time-rows", "subplots without or with several traces")
        ctx.check(sum(bool(t.showlegend) for t in fig.data) == 1, "time-legend", "")
        ctx.refuses(lambda: td.plot(fig=fig, max_pts=max_pts), "time-fig-chans", "a figure without channels")

    def partial(have, rows, max_pts):
        """A figure with more or other rows than the data have channels"""
        n = 60
        data = np.array([wave(n, k) + 10 * k for k in range(len(have))])
        td = time_data(10.0, data, have, t0=T0_ODD)
        fig = PL.get_time_fig(list(rows), {c: "mV" for c in rows})
        td.plot(fig=fig, chans=list(rows), max_pts=max_pts)
        drawn = [c for c in rows if c in have]
        ctx.require(len(fig.data) == len(drawn), "partial-traces", f"{len(fig.data)} traces for {drawn}")
        seen = []
        for trace in fig.data:
            chan = rows[subplot_row(fig, trace)]
            seen.append(chan)
            if ctx.check(chan in have, "partial-row", f"a trace in the subplot of {chan}, the data have {have}"):
                check_time_trace(ctx, trace, data[have.index(chan)], td.metadata, max_pts, "partial")
        ctx.check(sorted(seen) == sorted(drawn), "partial-row", f"{seen}")

    names = CHANS + ["Ey"]
    if job["part"] == 0:
        for rows in [p for r in (1, 2, 3) for p in itertools.permutations(names, r)]:
            for have in [p for r in (1, 2) for p in itertools.permutations(names, r)]:
                if set(have) & set(rows) and not set(rows) <= set(have):
                    ctx.case({"job": job, "have": have, "rows": rows}, partial, list(have), list(rows), 7 if len(have) == 1 else None)

    subsets = [None] + [p for r in (1, 2, 3) for p in itertools.permutations(CHANS, r)]
    pick = Picker(job, ctx.tier)
    for chans in subsets:
        for own_fig in (False, True):
            if own_fig and chans is None:
                continue
            for fs, n in ((1.0, 50), (128.0, 101), (0.1, 30), (3.0, 77), (4096.0, 40), (44100.0, 33)):
                for t0 in (T0, T0_ODD):
                    for max_pts in (None, 10_000, n, n - 1, 7, 2):
                        if not pick():
                            continue
                        ctx.case({"job": job, "chans": chans, "fs": fs, "t0": t0.isoformat(), "max_pts": max_pts, "own_fig": own_fig}, one, fs, n, t0, chans, max_pts, own_fig)


def job_decimated(job, ctx):
    def one(levels, fs, t0, chans, max_pts, factor):
        n = 40 * factor ** (levels - 1)
        data = np.array([wave(n, k) for k in range(len(chans))])
        td = time_data(fs, data, chans, t0=t0)
        params = D.DecimationSetup(n_levels=levels, per_level=1, min_samples=2, div_factor=factor,
                                   eval_freqs=[fs / 4.5 / factor**k for k in range(levels)]).run(fs)
        dec = D.Decimator().run(params, td)
        n_levels = dec.metadata.n_levels
        ctx.check(n_levels == levels, "decimated-levels", f"{n_levels}")
        fig = dec.plot(max_pts=max_pts)
        ctx.require(len(fig.data) == n_levels * len(chans), "decimated-traces", f"{len(fig.data)}")
        seen = set()
        for trace in fig.data:
            level = int(trace.name.split(" - ")[0])
            chan = chans[subplot_row(fig, trace)]
            seen.add((level, chan))
            ctx.check(row_title(fig, subplot_row(fig, trace)) == f"Channel {chan}", "decimated-title", "")
            ctx.check(f"{dec.metadata.fs[level]:.4f}" in trace.name, "decimated-name", f"{trace.name}")
            check_time_trace(ctx, trace, dec.data[level][chans.index(chan)], dec.metadata.levels_metadata[level], max_pts, "decimated")
        ctx.check(len(seen) == n_levels * len(chans), "decimated-each", f"{seen}")

    pick = Picker(job, ctx.tier)
    for levels in range(1, 13):
        for factor in (2, 3):
            if factor ** (levels - 1) > 5000:
                continue
            for fs, t0 in ((64.0, T0), (10.0, T0_ODD)):
                for chans in (["Ex"], ["Hy", "Ex"], ["Hz", "Ex", "Hy"]):
                    for max_pts in (None, 5000, 50, 5):
                        if levels > 8 and (len(chans) > 1 or fs == 10.0 or max_pts in (None, 50)) and (ctx.tier == "quick" or levels < 12):
                            continue
                        if not pick():
                            continue
                        ctx.case({"job": job, "levels": levels, "factor": factor, "fs": fs, "chans": chans, "max_pts": max_pts}, one, levels, fs, t0, chans, max_pts, factor)


def make_spectra(levels, chans, n_wins, n_freqs, fs=64.0, ref=T0, offset=3, win=16, olap=4, factor=1):
    arrays, fss, freqs = [], [], []
    for lvl in range(levels):
        a = np.zeros((n_wins, len(chans), n_freqs), dtype=complex)
        for w, c, f in itertools.product(range(n_wins), range(len(chans)), range(n_freqs)):
            a[w, c, f] = (1 + w * 0.25 + ((w * 7 + f * (3 + c) + lvl) % 5)) * np.exp(1j * (w + c + f)) * (c + 1) * 10 ** ((f * (c + 1) + lvl) % 3)
        arrays.append(a)
        fss.append(fs / factor**lvl)
        freqs.append([fs / factor**lvl / 2 * (f + 1) / (n_freqs + 1) for f in range(n_freqs)])
    return spectra_data(arrays, fss, freqs, chans, ref=ref, offset=offset, win=win, olap=olap)


def check_spectrum(ctx, trace, freqs, values, max_pts, key):
    freqs = np.array(freqs)
    idx = []
    for x in trace.x:
        k = int(np.argmin(np.absolute(freqs - x)))
        if not ctx.check(abs(freqs[k] - x) <= 1e-12 * freqs[k], key + "-freqs", f"a point at {x} Hz"):
            return
        idx.append(k)
    if selected(ctx, np.array(idx), values[np.array(idx)], values, max_pts, key):
        ctx.check(np.allclose(trace.y, values[np.array(idx)], rtol=1e-12, equal_nan=True), key + "-stack", f"{trace.y[:5]} expected {values[np.array(idx)][:5]}")


def job_spectra(job, ctx):
    def one(levels, chans, n_wins, n_freqs, max_pts):
        spec = make_spectra(levels, chans, n_wins, n_freqs, factor=2)
        before = {k: v.copy() for k, v in spec.data.items()}
        fig = spec.plot(max_pts=max_pts)
        ctx.require(len(fig.data) == levels * len(chans), "spectra-traces", f"{len(fig.data)}")
        seen = set()
        for trace in fig.data:
            level = int(trace.name.split(" - ")[0])
            c = subplot_row(fig, trace)
            seen.add((level, c))
            ctx.check(row_title(fig, c) == f"Channel {chans[c]}", "spectra-title", "")
            check_spectrum(ctx, trace, spec.metadata.levels_metadata[level].freqs, np.mean(np.absolute(before[level][:, c, :]), axis=0), max_pts, "spectra")
        ctx.check(len(seen) == levels * len(chans), "spectra-each", f"{sorted(seen)}")
        ctx.check(all(same(before[k], spec.data[k]) for k in before), "spectra-input-changed", "")

    pick = Picker(job, ctx.tier)
    for levels in range(1, 13):
        for chans in (["Ex"], ["Hy", "Ex"], ["Hz", "Ex", "Hy"]):
            for n_wins in (1, 3):
                for n_freqs in (1, 2, 9, 20):
                    for max_pts in (None, 10_000, 8, 5):
                        if not pick():
                            continue
                        ctx.case({"job": job, "levels": levels, "chans": chans, "wins": n_wins, "freqs": n_freqs, "max_pts": max_pts}, one, levels, chans, n_wins, n_freqs, max_pts)


def windows_in_groups(spec, level, length, origin):
    """Group number -> windows, by exact time; origin in seconds from the reference time"""
    lm = spec.metadata.levels_metadata[level]
    period = 1 / Fraction(lm.fs)
    groups = {}
    for w in range(lm.n_wins):
        start = (lm.index_offset + w) * (lm.win_size - lm.olap_size) * period
        groups.setdefault(math.floor((start - origin) / length), []).append(w)
    return groups


def job_stacks(job, ctx):
    """Stacks of one level, whole or by time of day"""
    hour = Fraction(3600)

    def one(chans, n_wins, inc_hours, grouping, offset, level, max_pts):
        win, olap = inc_hours * 900 + 1, 1
        spec = make_spectra(2, chans, n_wins, 9, fs=0.25, offset=offset[0], win=win, olap=olap)
        lm = spec.metadata.levels_metadata[level]
        spec.metadata.first_time = time_at(T0, Fraction(offset[0] * inc_hours * 3600))
        spec.metadata.last_time = time_at(T0, Fraction((offset[0] + 3 + n_wins) * inc_hours * 3600))
        kwargs = {} if grouping is None else {"grouping": "%dh" % grouping, "offset": "%dh" % offset[1]}
        fig = spec.plot_level_stack(level, max_pts=max_pts, **kwargs)
        if grouping is None:
            groups = {0: list(range(n_wins))}
            stamps = None
        else:
            # pandas counts bins from midnight of the first day (plus the offset)
            first = (lm.index_offset) * Fraction(win - olap) / Fraction(lm.fs)
            day = math.floor(first / 86400) * 86400
            groups = windows_in_groups(spec, level, grouping * hour, day + offset[1] * hour)
            stamps = {pd.Timestamp("2021-01-01") + pd.Timedelta(seconds=float(day + offset[1] * hour + g * grouping * hour)): g for g in groups}
        traces = [t for t in fig.data if not np.all(np.isnan(t.y))]
        ctx.require(len(traces) == len(groups) * len(chans), "stack-traces", f"{len(traces)} traces for {len(groups)} groups of {len(chans)} channels")
        seen = set()
        for trace in traces:
            c = subplot_row(fig, trace)
            if stamps is None:
                g = 0
            else:
                g = stamps.get(pd.Timestamp(trace.name))
                if not ctx.check(g is not None, "stack-name", f"{trace.name} expected one of {sorted(stamps)}"):
                    continue
            seen.add((g, c))
            check_spectrum(ctx, trace, lm.freqs, np.mean(np.absolute(spec.data[level][groups[g]][:, c, :]), axis=0), max_pts, "stack")
        ctx.check(len(seen) == len(traces), "stack-each", f"{sorted(seen)}")

    pick = Picker(job, ctx.tier)
    for chans in (["Ex"], ["Hy", "Ex"]):
        for n_wins in (1, 2, 13, 30):
            for inc_hours in (1, 5):
                for grouping in (None, 1, 6, 12, 24, 7):
                    for offset in ((0, 0), (3, 6), (30, 0)):
                        for level in (0, 1):
                            max_pts = (10_000, 5)[(n_wins + level) % 2]
                            if not pick():
                                continue
                            ctx.case({"job": job, "chans": chans, "wins": n_wins, "inc": inc_hours, "grouping": grouping, "offset": offset, "level": level}, one,
                                     chans, n_wins, inc_hours, grouping, offset, level, max_pts)


def job_sections(job, ctx):
    """Sections of one level"""
    def one(chans, n_wins, inc_minutes, grouping, offset, level, dead):
        spec = make_spectra(2, chans, n_wins, 9, fs=0.25, offset=offset, win=inc_minutes * 15 + 1, olap=1)
        if dead:
            spec.data[level][:, 0, 4] = 0
        fig = spec.plot_level_section(level, **({} if grouping is None else {"grouping": "%dT" % grouping}))
        minutes = 30 if grouping is None else grouping
        lm = spec.metadata.levels_metadata[level]
        first = lm.index_offset * Fraction(lm.win_size - lm.olap_size) / Fraction(lm.fs)
        day = math.floor(first / 86400) * 86400
        groups = windows_in_groups(spec, level, Fraction(minutes * 60), day)
        ctx.require(len(fig.data) == len(chans), "section-traces", f"{len(fig.data)}")
        for trace in fig.data:
            c = subplot_row(fig, trace)
            ctx.check(same(trace.y, lm.freqs), "section-freqs", f"{trace.y}")
            z = np.asarray(trace.z, dtype=float)
            if not ctx.check(z.shape == (len(lm.freqs), len(trace.x)), "section-shape", f"{z.shape} for {len(trace.x)} times"):
                continue
            found = 0
            for k, x in enumerate(pd.DatetimeIndex(trace.x)):
                secs = Fraction((x - pd.Timestamp("2021-01-01")).value, 10**9) - day - Fraction(minutes * 30)
                g = secs / (minutes * 60)
                if g not in groups:
                    ctx.check(np.all(np.isnan(z[:, k])), "section-empty", f"values at {x} where there are no windows")
                    continue
                found += 1
                want = np.log10(np.mean(np.absolute(spec.data[level][groups[g]][:, c, :]), axis=0))
                ctx.check(np.allclose(z[:, k], want, rtol=1e-12, atol=1e-12), "section-values", f"{z[:, k]} expected {want}")
            ctx.check(found == len(groups), "section-groups", f"{found} of {len(groups)}")

    pick = Picker(job, ctx.tier)
    for chans in (["Ex"], ["Hy", "Ex"], ["Hz", "Ex", "Hy"]):
        for n_wins in (1, 2, 13, 30):
            for inc in (1, 10, 30, 45, 120):
                for grouping in (None, 5, 60, 1440):
                    for offset in (0, 7):
                        for level in (0, 1):
                            for dead in (False, True):
                                if grouping == 5 and inc == 120 and n_wins > 13:
                                    continue
                                if not pick():
                                    continue
                                ctx.case({"job": job, "chans": chans, "wins": n_wins, "inc": inc, "grouping": grouping, "offset": offset, "level": level, "dead": dead}, one,
                                         chans, n_wins, inc, grouping, offset, level, dead)


def job_transfunc(job, ctx):
    """Impedance tensors and tippers over their periods"""
    comps = ["ExHy", "EyHx", "ExHx", "EyHy"]

    def tensor(freqs, phase0, mag, to_plot, own_fig):
        values = {}
        for k, comp in enumerate(comps):
            ang = np.radians(phase0 + 10.0 * k + 0.5 * np.arange(len(freqs)))
            values[comp] = (mag * (k + 1) * (1 + np.arange(len(freqs)))) * np.exp(1j * ang)
        parts = {c: Component(real=v.real.tolist(), imag=v.imag.tolist()) for c, v in values.items()}
        fig = ImpedanceTensor.get_fig() if own_fig else None
        out = ImpedanceTensor.plot(freqs, parts, fig=fig, to_plot=to_plot)
        want = comps if to_plot is None else to_plot
        ctx.require(len(out.data) == 2 * len(want), "tensor-traces", f"{len(out.data)}")
        periods = np.array([float(1 / Fraction(f)) for f in freqs])
        seen = set()
        for trace in out.data:
            comp = trace.name.split(" - ")[1]
            row = subplot_row(out, trace)
            seen.add((comp, row))
            ctx.check(np.allclose(trace.x, periods, rtol=1e-12), "tensor-periods", f"{trace.x}")
            z = values[comp]
            if row == 0:
                ctx.check(np.allclose(trace.y, 0.2 * periods * np.absolute(z) ** 2, rtol=1e-9), "tensor-resistivity", f"{trace.y}")
            else:
                diff = (np.asarray(trace.y) - np.degrees(np.angle(z))) / 180
                ctx.check(np.allclose(diff, np.rint(diff), atol=1e-9), "tensor-phase", f"{comp} {trace.y} expected {np.degrees(np.angle(z))} up to multiples of 180")
        ctx.check(seen == {(c, r) for c in want for r in (0, 1)}, "tensor-each", f"{sorted(seen)}")

    pick = Picker(job, ctx.tier)
    for freqs in ([1.0], [100.0, 10.0, 1.0], [0.001, 0.5, 3.0, 700.0]):
        for phase0 in range(-180, 180, 15):
            for mag in (1e-3, 1.0, 50.0):
                for to_plot in (None, ["ExHy"], ["EyHx", "ExHy"]):
                    if not pick():
                        continue
                    ctx.case({"job": job, "freqs": freqs, "phase": phase0, "mag": mag, "to_plot": to_plot}, tensor, freqs, phase0, mag, to_plot, phase0 % 2 == 0)

    def tipper(freqs, tx, ty):
        parts = {"HzHx": Component(real=[tx.real] * len(freqs), imag=[tx.imag] * len(freqs)), "HzHy": Component(real=[ty.real] * len(freqs), imag=[ty.imag] * len(freqs))}
        fig = Tipper().plot(freqs, parts)
        ctx.require(len(fig.data) == 3, "tipper-traces", f"{len(fig.data)}")
        want = {"Tipper length": (0, math.sqrt(tx.real**2 + ty.real**2)), "Real angle": (1, math.degrees(math.atan(ty.real / tx.real))), "Imag angle": (1, math.degrees(math.atan(ty.imag / tx.imag)))}
        for trace in fig.data:
            row, y = want[trace.name]
            ctx.check(subplot_row(fig, trace) == row and np.allclose(trace.y, y) and np.allclose(trace.x, 1 / np.array(freqs)), "tipper", f"{trace.name}: {trace.y} expected {y}")

    for freqs in ([1.0], [100.0, 0.01]):
        for tx, ty in itertools.product((1 + 1j, -0.5 + 0.25j, 0.1 - 2j), repeat=2):
            if not pick():
                continue
            ctx.case({"job": job, "freqs": freqs, "tx": str(tx), "ty": str(ty)}, tipper, freqs, tx, ty)


def job_calibration(job, ctx):
    from resistics.calibrate import CalibrationData

    def one(freqs, own):
        n = len(freqs)
        mag = [1.0 + k * k for k in range(n)]
        phs = [0.1 * k - 0.5 for k in range(n)]
        cal = CalibrationData(file_path=None, serial="7", sensor="s", frequency=freqs, magnitude=mag, phase=phs)
        fig = PL.get_calibration_fig() if own else None
        for _ in range(2 if own else 1):
            fig = cal.plot(fig=fig, color="green", legend="cal")
        ctx.require(len(fig.data) == (4 if own else 2), "calibration-traces", f"{len(fig.data)}")
        for trace in fig.data:
            row = subplot_row(fig, trace)
            ctx.check(list(trace.x) == freqs and list(trace.y) == (mag, phs)[row] and trace.name == "cal", "calibration", f"row {row} {trace.y}")

    for freqs in ([1.0], [1.0, 2.0, 3.0], [1000.0, 0.1, 10.0]):
        for own in (False, True):
            ctx.case({"job": job, "freqs": freqs, "own": own}, one, freqs, own)


def job_timelines(job, ctx):
    """Site and project timelines show every measurement where it was recorded"""
    import resistics.letsgo as L
    from proj import write_measurement

    spans = [(64.0, 640, 0), (64.0, 128, 5000), (16.0, 32, 100), (0.5, 50, 7)]

    def bars(fig):
        out = []
        for t in fig.data:
            for base, x, y in zip(t.base, t.x, t.y):
                out.append((pd.Timestamp(base), float(x), str(y), str(t.name)))
        return sorted(out)

    def one(layout, ref):
        base = ctx.scratch()
        root = base / "proj"
        L.new(root, {"ref_time": ref})
        want = {}
        for site, which in layout.items():
            for w in which:
                fs, n, start = spans[w]
                t0 = time_at(T0, Fraction(start))
                write_measurement(root, site, "m%d" % w, time_data(fs, np.zeros((1, n)), ["Ex"], t0=t0))
                want[(site, "m%d" % w)] = (pd.Timestamp(t0.isoformat()), 1000 * (n - 1) / fs, fs)
        proj = L.load(root).proj
        for site in proj:
            got = bars(site.plot())
            exp = sorted((v[0], v[1], k[1], str(v[2])) for k, v in want.items() if k[0] == site.name)
            ctx.check(len(got) == len(exp) and all(a[0] == b[0] and abs(a[1] - b[1]) < 1 and a[2:] == b[2:] for a, b in zip(got, exp)), "site-timeline", f"{got} expected {exp}")
        fig = proj.plot()
        got = bars(fig)
        exp = sorted((v[0], v[1], k[0], str(v[2])) for k, v in want.items())
        ctx.check(len(got) == len(exp) and all(a[0] == b[0] and abs(a[1] - b[1]) < 1 and a[2:] == b[2:] for a, b in zip(got, exp)), "project-timeline", f"{got} expected {exp}")
        lo, hi = [pd.Timestamp(x) for x in fig.layout.xaxis.range]
        times = [v[0] for v in want.values()] + [v[0] + pd.Timedelta(milliseconds=v[1]) for v in want.values()] + ([pd.Timestamp(ref)] if pd.Timestamp(ref) < min(v[0] for v in want.values()) else [])
        ctx.check(lo <= min(times) and hi >= max(times), "timeline-range", f"{lo} {hi} expected to show {min(times)} {max(times)}")
        lines = [s for s in fig.layout.shapes]
        ctx.check(len(lines) == 1 and pd.Timestamp(lines[0].x0) == pd.Timestamp(ref) == pd.Timestamp(lines[0].x1), "timeline-ref", f"{lines}")
        ctx.drop(base)

    subsets = [s for r in (1, 2, 3, 4) for s in itertools.combinations(range(4), r)]
    pick = Picker(job, ctx.tier)
    for a in subsets:
        for b in [()] + subsets[:: 3 if ctx.tier == "quick" else 1]:
            for ref in ("2021-01-01", "2020-12-25 10:00:00", "2021-01-01 00:05:00"):
                layout = {"A": a, "B": b} if b else {"A": a}
                if ctx.tier == "quick" and ref != "2021-01-01" and b:
                    continue
                if not pick():
                    continue
                ctx.case({"job": job, "layout": str(layout), "ref": ref}, one, layout, ref)
