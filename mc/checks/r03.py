"""R03 every time or sample selection on every reader and Subsection"""
from fractions import Fraction

import numpy as np

from build import T0, T0_ODD, time_metadata, dating_ok, snapshot, station_of, STATION
from ref import time_at, ceil_frac, floor_frac

import resistics.time as T
from resistics.sampling import datetime_to_string, to_timestamp

ID = "R03"
LEVEL = "exploration"
RULE = (
    "for each fs x record length x channel count x reader/format: every pair of from/to ends "
    "given as samples, as times on a third-of-a-sample grid reaching past both ends, or mixed or absent; "
    "non-trivial: distinct (recording, selection) pairs"
)
ASSUMPTIONS = [
    "a selection of exactly one sample may be refused or returned (the code refuses it)",
    "ascii data are exactly representable in float32",
]
FS = [1, 10, 0.1, 3, 128, 24000, 0.7]
FS_T = FS + [7, 50, 512, 1 / 3, 65536, 0.016]


def BOUNDS(tier):
    return {
        "fs": FS if tier == "quick" else FS_T,
        "record_lengths": lengths(tier),
        "channels": [1, 2, 3],
        "formats": [x[0] for x in FORMATS],
    }


def lengths(tier):
    return [5] if tier == "quick" else [2, 3, 6, 11]


FORMATS = [
    ("numpy", {}), ("ascii", {}), ("ascii-header", {"n_header": 3}),
    ("ascii-comma", {"delimiter": ",", "n_header": 1}),
]


def jobs(tier):
    for fs in FS if tier == "quick" else FS_T:
        for n_chans in (1, 2, 3):
            for n in lengths(tier):
                for fmt in range(len(FORMATS)):
                    if tier == "quick" and fmt >= 2 and n_chans == 2:
                        continue
                    yield {"fs": fs, "n_chans": n_chans, "n": n, "fmt": fmt}


CHANS = ["Hy", "Ex", "Hx"]


def run_job(job, ctx):
    fs, n, n_chans = job["fs"], job["n"], job["n_chans"]
    name, opts = FORMATS[job["fmt"]]
    t0 = T0_ODD if n_chans == 2 else T0
    chans = CHANS[:n_chans]
    period = 1 / Fraction(fs)
    full = np.array(
        [[100.0 * (c + 1) + k for k in range(n)] for c in range(n_chans)], dtype=np.float32
    )
    d = ctx.scratch()
    meta = time_metadata(fs, n, chans, t0)
    fname = "data.npy" if name == "numpy" else "data.txt"
    for c in chans:
        meta.chans_metadata[c].data_files = [fname]
    if name == "numpy":
        np.save(d / fname, full)
        reader = T.TimeReaderNumpy(**opts)
    else:
        delim = opts.get("delimiter") or " "
        lines = [f"header line {i}" for i in range(opts.get("n_header", 0))]
        lines += [delim.join("%.3f" % full[c, k] for c in range(n_chans)) for k in range(n)]
        (d / fname).write_text("\n".join(lines) + "\n")
        reader = T.TimeReaderAscii(**opts)
    meta.write(d / "metadata.json")
    before = {p.name: p.read_bytes() for p in sorted(d.iterdir())}
    file_meta = reader.run(d, metadata_only=True)
    passed = file_meta.copy(deep=True)
    passed_json = passed.json()
    whole = reader.run(d)

    def verify(td, lo, hi, what):
        want = full[:, lo : hi + 1]
        got = np.array(td.data)
        ctx.require(
            got.shape == want.shape, f"{what}-shape", f"shape {got.shape} != {want.shape}"
        )
        ctx.check(np.array_equal(got, want), f"{what}-values", f"{got.tolist()} != {want.tolist()}")
        ctx.check(got.dtype == full.dtype, f"{what}-dtype", f"{got.dtype}")
        m = td.metadata
        dating_ok(ctx, m, fs, t0, lo, hi - lo + 1, what)
        ctx.check(
            m.fs == fs and m.chans == chans and m.n_chans == n_chans and station_of(m) == STATION,
            f"{what}-metadata", "fs, channels or station metadata changed",
        )
        for i, c in enumerate(chans):
            ctx.check(
                np.array_equal(np.array(td[c]), want[i]) and m[c].sensor == "MFS%02d" % i,
                f"{what}-channel", f"channel {c}",
            )

    ctx.case({**job, "read": "full"}, verify, whole, 0, n - 1, "full")
    ctx.case(
        {**job, "read": "metadata"},
        lambda: (
            dating_ok(ctx, file_meta, fs, t0, 0, n, "metadata"),
            ctx.check(file_meta.chans == chans, "metadata-chans", ""),
        ),
    )

    # every end as ("s", sample), ("t", position in samples) or None
    thirds = [Fraction(i, 3) for i in range(-2, 3 * n + 1)]
    if ctx.tier == "quick":
        thirds = [x for x in thirds if x.denominator == 1 or (int(x * 3) % 2 == 1) or x < 0 or x > n - 1]
    ends = [None] + [("s", s) for s in range(-1, n + 1)] + [("t", x) for x in thirds]

    def resolve(end, which):
        """sample number selected by one end, or 'refuse'"""
        if end is None:
            return 0 if which == "from" else n - 1
        kind, x = end
        if kind == "s":
            return x if 0 <= x < n else "refuse"
        if which == "from":
            return "refuse" if x > n - 1 else max(0, ceil_frac(Fraction(x)))
        return "refuse" if x < 0 else min(n - 1, floor_frac(Fraction(x)))

    def moment(x, style):
        t = time_at(t0, x * period)
        if style == 0:
            return t
        return datetime_to_string(t)

    def select(lo_end, hi_end, idx):
        lo, hi = resolve(lo_end, "from"), resolve(hi_end, "to")
        kwargs = {}
        for end, which in ((lo_end, "from"), (hi_end, "to")):
            if end is not None:
                if end[0] == "s":
                    kwargs[which + "_sample"] = end[1]
                else:
                    kwargs[which + "_time"] = moment(end[1], idx % 2)
        if idx % 3 == 1:
            kwargs["metadata"] = passed
        legal = lo != "refuse" and hi != "refuse" and lo <= hi
        single = legal and lo == hi
        try:
            td = reader.run(d, **kwargs)
        except ValueError as e:
            ctx.outcome("refused")
            ctx.check(not legal or single, "refused-legal", f"legal selection refused: {e}")
            td = None
        if td is not None:
            ctx.require(legal, "accepted-illegal", f"illegal selection gave {td.data.shape}")
            ctx.outcome((lo, hi))
            verify(td, lo, hi, "selection")
        ctx.check(passed.json() == passed_json, "passed-metadata-changed", "metadata argument modified")
        # the same selection by times as a subsection of the whole recording
        if lo_end and hi_end and lo_end[0] == "t" and hi_end[0] == "t":
            sub = T.Subsection(
                from_time=moment(lo_end[1], 1), to_time=moment(hi_end[1], 1)
            )
            try:
                got = sub.run(whole) if idx % 2 else whole.subsection(sub.from_time, sub.to_time)
            except ValueError as e:
                ctx.check(not legal or single, "subsection-refused-legal", str(e))
                return
            ctx.require(legal, "subsection-accepted-illegal", f"{got.data.shape}")
            verify(got, lo, hi, "subsection")

    idx = 0
    for lo_end in ends:
        for hi_end in ends:
            idx += 1
            if ctx.tier == "quick" and lo_end and hi_end and lo_end[0] != hi_end[0] and idx % 3:
                continue
            label = [str(lo_end and lo_end[1]) + (lo_end or "n")[0], str(hi_end and hi_end[1]) + (hi_end or "n")[0]]
            ctx.case({**job, "select": label}, select, lo_end, hi_end, idx)

    # pandas and ISO style dates naming whole samples (where a nanosecond date can name them)
    if (period * 10**9).denominator == 1:
        def pandas_dates(a, b):
            ta, tb = (to_timestamp(time_at(t0, x * period)) for x in (a, b))
            verify(reader.run(d, from_time=ta, to_time=tb), a, b, "pandas-dates")
            verify(reader.run(d, from_time=str(ta), to_time=str(tb)), a, b, "iso-dates")
            verify(T.Subsection(from_time=ta, to_time=tb).run(whole), a, b, "pandas-subsection")

        for a in range(n):
            for b in range(a + 1, n):
                ctx.case({**job, "pandas": [a, b]}, pandas_dates, a, b)

    after = {p.name: p.read_bytes() for p in sorted(d.iterdir())}
    ctx.check(before == after, "files-changed", "reading changed files", job)
    ctx.case({**job, "read": "full after all"}, verify, whole, 0, n - 1, "full")
    ctx.case({**job, "read": "full again"}, verify, reader.run(d), 0, n - 1, "full")
