"""R23 recordings and their metadata answer for the right channel, sample and level"""
import itertools
from fractions import Fraction

import numpy as np
import pandas as pd

from build import KNOWN_CHANS, STATION, T0, T0_ODD, chan_meta, chans_meta, snapshot, time_data
from ref import abs_secs, floor_frac, secs_between, seconds_of, time_at

import resistics.common as K
import resistics.decimate as D
import resistics.time as T

ID = "R23"
LEVEL = "exploration"
RULE = (
    "every known and a grid of unknown channel names x stated kind or none; every ordered subset of up to four "
    "channels of different kinds x dtype x length: every lookup by kind and name, every assignment of a row (right, "
    "wrong size, wrong type, unknown channel) compared with labelled arrays; every fs x first time x selection of samples: "
    "timestamps against exact rational times; the same per level for decimated data with 1 to 12 levels; "
    "non-trivial: distinct (names, kinds, operation) and (fs, first time, selection)"
)
ASSUMPTIONS = [
    "estimated timestamps are rounded to nanoseconds (a few more for offsets beyond the resolution of a double)",
    "exact timestamps are allowed the rounding of attotime's 28 digits",
]
KINDS = {"E": "electric", "H": "magnetic", "B": "magnetic"}
NAMES = list(KNOWN_CHANS)
UNKNOWN = ["", "ex", "EX", "E", "E5", "E0", "E1 ", " Ex", "Exx", "Ez", "H", "Hxy", "hx", "hz", "B", "chan1", "Mx", "T", "x", "Ey1"]
POOL = ["Hy", "Ex", "T", "Bz", "E4"]
FS = [1.0, 10.0, 0.1, 3.0, 1 / 3, 128.0, 512.0, 24000.0, 65536.0, 0.7, 131072.0, 1 / 60]


def BOUNDS(tier):
    return {"channels": "1..4", "levels": "1..12", "samples": "0..10**7", "fs": FS}


def kind_of(name):
    return KINDS.get(name[:1]) if name in NAMES else None


def jobs(tier):
    yield {"kind": "names"}
    yield {"kind": "metadata"}
    for r in (1, 2, 3, 4):
        yield {"kind": "lookup", "r": r}
    for fs in FS:
        yield {"kind": "stamps", "fs": fs}
    yield {"kind": "levels"}
    yield {"kind": "copies"}


def run_job(job, ctx):
    globals()["job_" + job["kind"]](job, ctx)


def job_names(job, ctx):
    def one(name, stated):
        kind = kind_of(name)
        ctx.check(K.is_electric(name) == (kind == "electric"), "is_electric", name)
        ctx.check(K.is_magnetic(name) == (kind == "magnetic"), "is_magnetic", name)
        if kind is None:
            ctx.refuses(lambda: K.get_chan_type(name), "unknown-kind", f"a kind for channel {name!r}", ValueError)
        else:
            ctx.check(K.get_chan_type(name) == kind, "kind", f"{name} {K.get_chan_type(name)}")
        if stated is None and kind is None:
            ctx.refuses(lambda: T.ChanMetadata(name=name), "unknown-kind-metadata", f"channel {name!r} without a kind accepted", ValueError)
            return
        md = T.ChanMetadata(name=name) if stated is None else T.ChanMetadata(name=name, chan_type=stated)
        want = stated or kind
        ctx.check(md.chan_type == want, "chan-type", f"{name} stated {stated}: {md.chan_type}")
        ctx.check(md.electric() == (want == "electric") and md.magnetic() == (want == "magnetic"), "chan-is", f"{name} {want}")
        ctx.check(md.name == name and md.data_files is None and md.scaling == 1 and md.gain1 == 1 and md.gain2 == 1 and md.dipole_dist == 1
                  and md.chopper is False and md.sensor == "" and md.serial == "", "chan-defaults", f"{md.dict()}")
        for files, got in (("a.npy", ["a.npy"]), (["a", "b"], ["a", "b"]), ([], [])):
            m = T.ChanMetadata(name=name, chan_type="other", data_files=files)
            ctx.check(m.data_files == got, "data-files", f"{files} {m.data_files}")
            m.data_files = "z"
            ctx.check(m.data_files == ["z"], "data-files", f"assigned z: {m.data_files}")

    for name in NAMES + UNKNOWN:
        for stated in (None, "electric", "magnetic", "unknown", "temperature"):
            ctx.case({"name": name, "stated": stated}, one, name, stated)
    for chans in ([], ["Ex"], ["Ex", "Hy"], ("Hy",), {"a": 1}, {"Hx"}):
        for chan in ("Ex", "Hy", "Hx", "a", ""):
            def chk():
                from resistics.errors import ChannelNotFoundError
                if chan in list(chans):
                    ctx.check(K.check_chan(chan, chans) is True, "check-chan", f"{chan} {chans}")
                else:
                    ctx.refuses(lambda: K.check_chan(chan, chans), "check-chan", f"{chan} found in {chans}", ChannelNotFoundError)
            ctx.case({"chan": chan, "chans": str(chans)}, chk)


def job_metadata(job, ctx):
    def one(fs, n, chans, given):
        span = Fraction(n - 1) / Fraction(fs)
        args = dict(fs=fs, chans=list(chans), n_samples=n, first_time=T0_ODD, last_time=time_at(T0_ODD, span), chans_metadata=chans_meta(chans))
        if given is not None:
            args["n_chans"] = given
        md = T.TimeMetadata(**args)
        ctx.check(md.n_chans == len(chans), "n_chans", f"{md.n_chans} for {chans}")
        ctx.check(abs(md.dt * fs - 1) < 1e-12, "dt", f"fs {fs}: dt {md.dt}")
        ctx.check(md.nyquist == fs / 2, "nyquist", f"fs {fs}: {md.nyquist}")
        ctx.check(abs(seconds_of(md.duration) - span) <= Fraction(1, 10**15), "duration", f"fs {fs} n {n}: {md.duration}")
        for k in STATION:
            ctx.check(getattr(md, k) == (-999.0 if isinstance(STATION[k], float) else ""), "station-defaults", f"{k} {getattr(md, k)}")
        ctx.check(md.history.records == [], "history-default", f"{md.history}")
        # the same from dictionaries
        d = {k: v for k, v in args.items() if k != "chans_metadata"}
        cd = {c: {"name": c, "chan_type": chan_meta(c).chan_type, "serial": str(i), "data_files": f"{c}.x"} for i, c in enumerate(chans)}
        cd["spare"] = {"name": "spare"}
        keep = repr(d), repr(cd)
        got = T.get_time_metadata(d, cd)
        ctx.check((repr(d), repr(cd)) == keep, "get-metadata-args", "the dictionaries given were changed")
        ctx.check(got.fs == fs and got.chans == list(chans) and got.n_samples == n and got.n_chans == len(chans)
                  and got.first_time == T0_ODD and got.last_time == args["last_time"], "get-metadata", f"{got.dict()}")
        ctx.check(sorted(got.chans_metadata) == sorted(chans) and all(
            got.chans_metadata[c].name == c and got.chans_metadata[c].serial == str(i) and got.chans_metadata[c].data_files == [f"{c}.x"]
            for i, c in enumerate(chans)), "get-metadata-chans", f"{got.chans_metadata}")
        # adjusted: in place, as documented
        for fs2, n2, t2 in ((2.0, 5, T0), (1 / 3, 7, T0_ODD), (24000.0, 1, T0)):
            back = T.adjust_time_metadata(got, fs2, t2, n2)
            ctx.check(back is got and back.fs == fs2 and back.n_samples == n2 and back.first_time == t2, "adjust", f"{back.dict()}")
            err = secs_between(back.last_time, t2) - Fraction(n2 - 1) / Fraction(fs2)
            ctx.check(abs(err) <= Fraction(1, 10**14), "adjust-last", f"off by {float(err)} s")

    for fs in FS:
        for n in (1, 2, 11, 100000):
            for chans in (["Ex"], ["Hy", "Ex"], ["T", "Bz", "E4"]):
                for given in (None, len(chans)):
                    ctx.case({"fs": fs, "n": n, "chans": chans, "given": given}, one, fs, n, chans, given)


def job_lookup(job, ctx):
    from resistics.errors import ChannelNotFoundError

    def one(chans, dtype, n):
        base = (np.arange(len(chans))[:, None] * 1000 + np.arange(n)[None, :]).astype(dtype)
        td = time_data(10.0, base, chans)
        md = td.metadata
        kinds = {c: (kind_of(c) or "unknown") for c in chans}
        ctx.check(md.get_chan_types() == sorted(set(kinds.values())), "chan-types", f"{chans}: {md.get_chan_types()}")
        for kind in ("electric", "magnetic", "unknown", "other"):
            want = [c for c in chans if kinds[c] == kind]
            ctx.check(md.get_chans_with_type(kind) == want, "chans-with-type", f"{kind} in {chans}: {md.get_chans_with_type(kind)}")
        e, h = [[c for c in chans if kinds[c] == k] for k in ("electric", "magnetic")]
        ctx.check(md.get_electric_chans() == e and md.get_magnetic_chans() == h, "kind-chans", f"{chans}: {md.get_electric_chans()} {md.get_magnetic_chans()}")
        ctx.check(md.any_electric() is bool(e) and md.any_magnetic() is bool(h), "any-kind", f"{chans}")
        for i, c in enumerate(chans):
            ctx.check(md[c].name == c and md[c].serial == str(100 + i), "metadata-item", f"{c}: {md[c].name}")
            ctx.check(td.get_chan_index(c) == i, "index", f"{c} in {chans}: {td.get_chan_index(c)}")
            ctx.check(np.array_equal(td.get_chan(c), base[i]) and np.array_equal(td[c], base[i]), "get-chan", f"{c} in {chans}")
        for c in [x for x in POOL + ["", "ex"] if x not in chans]:
            for fn in (td.get_chan, td.__getitem__, md.__getitem__):
                ctx.refuses(lambda: fn(c), "unknown-chan", f"{c!r} in {chans}", ChannelNotFoundError)
        before = snapshot(td)
        good = -np.arange(n).astype(dtype) - 5
        for c in chans:
            bad = [good[: n - 1], np.append(good, good[:1]), good.astype("float64" if dtype != "float64" else "float32"), good.astype("int16")]
            for x in bad:
                for put in (td.set_chan, td.__setitem__):
                    ctx.refuses(lambda: put(c, x), "set-refused", f"{x.dtype} {x.size} for {dtype} {n}", ValueError)
        for put in (td.set_chan, td.__setitem__):
            ctx.refuses(lambda: put("E3", good), "set-unknown", "unknown channel", ChannelNotFoundError)
        ctx.check(snapshot(td) == before, "set-refused-changed", "a refused assignment changed the data")
        want = base.copy()
        for i, c in enumerate(chans):
            x = good * (i + 1)
            keep = x.copy()
            if i % 2:
                td[c] = x
            else:
                td.set_chan(c, x)
            want[i] = keep
            ctx.check(np.array_equal(td.data, want), "set-chan", f"{c} in {chans}")
            x[:] = 77
            ctx.check(np.array_equal(td.data, want), "set-alias", "the array given is still the data")
        ctx.check(snapshot(td)[0] == before[0], "set-metadata", "metadata changed")

    for chans in itertools.permutations(POOL, job["r"]):
        for dtype in ("float32", "float64", "int32"):
            for n in (1, 2, 9) if job["r"] < 4 else (3,):
                ctx.case({"chans": chans, "dtype": dtype, "n": n}, one, list(chans), dtype, n)


def check_stamps(ctx, stamps, samples, fs, t0, estimate, key):
    ctx.require(len(stamps) == len(samples), key + "-count", f"{len(stamps)} for {len(samples)}")
    for k, s in zip(samples, stamps):
        want = Fraction(int(k)) / Fraction(fs)
        if estimate:
            base = pd.Timestamp("2000-01-01")
            got = Fraction(int(pd.Timestamp(s).value) - base.value, 10**9)
            ref = abs_secs(t0) - abs_secs(time_at(T0, 0)) + Fraction((pd.Timestamp("2021-01-01") - base).value, 10**9)
            tol = Fraction(3, 10**9) + want / 10**15
            err = got - ref - want
        else:
            err = secs_between(s, t0) - want
            tol = Fraction(1, 10**14) + want / 10**13
        if not ctx.check(abs(err) <= tol, key, f"fs {fs} sample {k}: off by {float(err)} s"):
            return


def job_stamps(job, ctx):
    """Timestamps of all or of chosen samples, exact or in nanoseconds"""
    fs = job["fs"]

    def all_of(t0, n, estimate):
        td = time_data(fs, np.zeros((1, n), dtype="float32"), ["Ex"], t0=t0)
        stamps = td.get_timestamps(estimate=estimate)
        ctx.check(isinstance(stamps, pd.DatetimeIndex) == estimate, "stamps-type", f"{type(stamps)}")
        pick = sorted(set(range(min(n, 40))) | set(range(max(0, n - 40), n)) | {n // 2})
        check_stamps(ctx, [stamps[i] for i in pick], pick, fs, t0, estimate, "stamps")
        ctx.check(len(stamps) == n, "stamps-count", f"{len(stamps)} {n}")

    def some_of(t0, samples, estimate, n):
        td = time_data(fs, np.zeros((2, n), dtype="float32"), ["Ex", "Hy"], t0=t0)
        arr = np.array(samples)
        keep = arr.copy()
        stamps = td.get_timestamps(arr, estimate)
        ctx.check(np.array_equal(arr, keep), "stamps-arg", "the sample array changed")
        check_stamps(ctx, list(stamps), samples, fs, t0, estimate, "stamps-of")

    for t0 in (T0, T0_ODD, time_at(T0, Fraction(1, 3))):
        for estimate in (True, False):
            for n in (1, 2, 3, 1000, 200000 if estimate else 3000):
                ctx.case({"fs": fs, "t0": t0.isoformat(), "n": n, "estimate": estimate}, all_of, t0, n, estimate)
            for samples in ([0], [5], [0, 1, 2], [9, 3, 3, 0], [1, 10, 100, 999], [999], [0, 0], list(range(0, 1000, 37))):
                ctx.case({"fs": fs, "t0": t0.isoformat(), "samples": samples, "estimate": estimate}, some_of, t0, samples, estimate, 1000)
            ctx.case({"fs": fs, "t0": t0.isoformat(), "samples": "far", "estimate": estimate}, some_of, t0, [10**7, 123457, 10**6 + 1], estimate, 1000)


def job_levels(job, ctx):
    def one(n_levels, fs, chans, dtype):
        rates = [fs / 2 ** (i // 2) for i in range(n_levels)]
        sizes = [40 - 2 * i for i in range(n_levels)]
        data = {i: (np.arange(len(chans) * sizes[i]).reshape(len(chans), -1) + 10000 * i).astype(dtype) for i in range(n_levels)}
        levels = [D.DecimatedLevelMetadata(fs=r, n_samples=s, first_time=T0_ODD, last_time=time_at(T0_ODD, Fraction(s - 1) / Fraction(r))) for r, s in zip(rates, sizes)]
        md = D.DecimatedMetadata(fs=rates, chans=list(chans), n_levels=n_levels, first_time=T0_ODD, last_time=levels[0].last_time,
                                 chans_metadata=chans_meta(chans), levels_metadata=levels, **STATION)
        dec = D.DecimatedData(md, dict(data))
        ctx.check(md.n_chans == len(chans), "dec-n_chans", f"{md.n_chans}")
        for i in range(n_levels):
            ctx.check(dec.get_level(i) is data[i] or np.array_equal(dec.get_level(i), data[i]), "level", f"level {i} of {n_levels}")
            ctx.check(abs(md.levels_metadata[i].dt * rates[i] - 1) < 1e-12, "level-dt", f"{md.levels_metadata[i].dt}")
            for estimate in (True, False):
                stamps = dec.get_timestamps(i, estimate=estimate)
                check_stamps(ctx, list(stamps), range(sizes[i]), rates[i], T0_ODD, estimate, "level-stamps")
                pick = [0, sizes[i] - 1, 3, 3]
                stamps = dec.get_timestamps(i, np.array(pick), estimate)
                check_stamps(ctx, list(stamps), pick, rates[i], T0_ODD, estimate, "level-stamps-of")
        for lev in (n_levels, n_levels + 1, 50, -1, -n_levels):
            ctx.refuses(lambda: dec.get_level(lev), "level-refused", f"level {lev} of {n_levels}")
            ctx.refuses(lambda: dec.get_timestamps(lev), "level-stamps-refused", f"level {lev} of {n_levels}")

    for n_levels in range(1, 13):
        for fs in (10.0, 0.1, 65536.0, 3.0):
            for chans in (["Ex"], ["Hy", "Ex", "T"]):
                for dtype in ("float32", "float64"):
                    ctx.case({"levels": n_levels, "fs": fs, "chans": chans, "dtype": dtype}, one, n_levels, fs, chans, dtype)


def job_copies(job, ctx):
    """A copy is equal and shares nothing"""
    def one(chans, dtype):
        td = time_data(3.0, np.arange(len(chans) * 7).reshape(len(chans), 7).astype(dtype), chans, t0=T0_ODD)
        td.metadata.history.add_record(K.get_record({"name": "x", "a": [1, 2]}, "first"))
        before = snapshot(td)
        for attempt in range(2):
            cp = td.copy()
            ctx.check(type(cp) is type(td) and cp.metadata == td.metadata and snapshot(cp)[1] == before[1], "copy-equal", f"{chans}")
            ctx.check(cp.metadata.chans_metadata.keys() == td.metadata.chans_metadata.keys(), "copy-chans", "")
            cp.data[:] = 5
            cp.metadata.fs = 99.0
            cp.metadata.chans.append("zz")
            cp.metadata.history.add_record(K.get_record({"name": "y"}, "second"))
            cp.metadata.history.records[0].messages.append("added")
            cp.metadata.chans_metadata[chans[0]].serial = "changed"
            cp.metadata.chans_metadata[chans[0]].data_files.append("changed")
            cp.metadata.chans_metadata.pop(chans[-1])
            ctx.check(snapshot(td) == before, "copy-shared", f"changing a copy changed the original ({chans})")
        sub = td.subsection("2020-03-01 00:00:00.3", "2020-03-01 00:00:01.4")
        ctx.check(np.array_equal(sub.data, td.data[:, 1:5]) and sub.metadata.n_samples == 4, "subsection", f"{sub.data}")
        ctx.check(snapshot(td) == before, "subsection-input", "")

    for r in (1, 2, 3):
        for chans in itertools.permutations(POOL[:4], r):
            for dtype in ("float32", "float64", "int32"):
                ctx.case({"chans": chans, "dtype": dtype}, one, list(chans), dtype)
