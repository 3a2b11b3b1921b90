"""R06 sample-wise time processes against exact definitions"""
import itertools
from fractions import Fraction

import numpy as np

from build import T0, T0_ODD, time_data, dating_ok, snapshot, station_of, STATION

import resistics.time as T

ID = "R06"
LEVEL = "exploration"
RULE = (
    "every NaN pattern (one and two channels), every subset of named channels and value tuple, "
    "every shift/length/fs/dtype in the alphabets run through the real process and compared with the "
    "definition evaluated in rational arithmetic; non-trivial: distinct (process, parameters, input)"
)
ASSUMPTIONS = [
    "a channel with no valid sample at all is outside InterpolateNans' contract",
    "float tolerance 1e-5 relative for float32, 1e-12 for float64",
]
DTYPES = ["float32", "float64"]


def BOUNDS(tier):
    return {"nan_pattern_length": 7 if tier == "quick" else 11, "channels": "1..4"}


def jobs(tier):
    top = 7 if tier == "quick" else 11
    for dt in DTYPES:
        for n in range(2, top + 1):
            yield {"kind": "nans", "n": n, "dtype": dt}
        yield {"kind": "nans2", "n": 4 if tier == "quick" else 5, "dtype": dt}
        for n_chans in (1, 2, 3, 4):
            yield {"kind": "chans", "n_chans": n_chans, "dtype": dt}
        for fs in (1, 10, 0.1, 128, 3, 24000):
            yield {"kind": "shift", "fs": fs, "dtype": dt}
        yield {"kind": "long-shift", "dtype": dt, "log2n": 22 if tier == "quick" else 25}
    # recordings are often integers
    for dt in ("int16", "int32", "int64"):
        for n_chans in (1, 2, 3):
            yield {"kind": "chans", "n_chans": n_chans, "dtype": dt}
        yield {"kind": "shift", "fs": 10, "dtype": dt}


VALS = [3.0, -1.0, 10.0, 0.5, 4.0, 4.0, -8.0, 2.0, 7.0, -2.5, 1.0, 6.0]


def tol(dt):
    return 2e-5 if dt in ("float32", "int16") else 1e-11


def close(a, b, dt, scale=1.0):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol(dt) * max(scale, 1.0)))


def common(ctx, td, out, dt, key, n=None):
    ctx.require(
        out.data.shape == (td.metadata.n_chans, td.metadata.n_samples if n is None else n),
        f"{key}-shape", f"{out.data.shape}",
    )
    ctx.check(
        out.metadata.chans == td.metadata.chans
        and out.metadata.fs == td.metadata.fs
        and station_of(out.metadata) == STATION
        and out.metadata.chans_metadata == td.metadata.chans_metadata,
        f"{key}-metadata", "channels, fs or station metadata changed",
    )
    if n is None:
        ctx.check(
            out.metadata.first_time == td.metadata.first_time
            and out.metadata.last_time == td.metadata.last_time
            and out.metadata.n_samples == td.metadata.n_samples,
            f"{key}-dates", "dates changed",
        )


def ref_interp(vals, nans):
    n = len(vals)
    good = [i for i in range(n) if not nans[i]]
    out = []
    for i in range(n):
        if not nans[i]:
            out.append(vals[i])
            continue
        left = [g for g in good if g < i]
        right = [g for g in good if g > i]
        if not left:
            out.append(vals[right[0]])
        elif not right:
            out.append(vals[left[-1]])
        else:
            a, b = left[-1], right[0]
            out.append(vals[a] + (vals[b] - vals[a]) * (i - a) / (b - a))
    return out


def run_job(job, ctx):
    globals()["job_" + job["kind"].replace("-", "_")](job, ctx)


def job_nans(job, ctx):
    n, dt = job["n"], job["dtype"]
    vals = VALS[:n]

    def one(pattern):
        data = np.array([vals, [v + 1 for v in vals]], dtype=dt)
        data[0, list(pattern)] = np.nan
        td = time_data(10, data, ["Ex", "Hy"])
        out = T.InterpolateNans().run(td)
        common(ctx, td, out, dt, "InterpolateNans")
        want = ref_interp(vals, [i in pattern for i in range(n)])
        ctx.check(close(out.data[0], want, dt, 10), "InterpolateNans-values",
                  f"{out.data[0].tolist()} != {want}")
        ctx.check(np.array_equal(out.data[1], data[1]), "InterpolateNans-other-channel", "changed")
        ctx.check(out.data.dtype == data.dtype, "InterpolateNans-dtype", str(out.data.dtype))
        kept = [i for i in range(n) if i not in pattern]
        ctx.check(np.array_equal(out.data[0][kept], data[0][kept]), "InterpolateNans-valid-changed", "")
        ctx.outcome(tuple(want))

    for r in range(0, n):
        for pattern in itertools.combinations(range(n), r):
            ctx.case({"job": job, "nan_at": pattern}, one, pattern)


def job_nans2(job, ctx):
    n, dt = job["n"], job["dtype"]
    pats = [p for r in range(0, n) for p in itertools.combinations(range(n), r)]

    def one(p1, p2):
        a, b = VALS[:n], VALS[5 : 5 + n]
        data = np.array([a, b], dtype=dt)
        data[0, list(p1)] = np.nan
        data[1, list(p2)] = np.nan
        out = T.InterpolateNans().run(time_data(0.5, data, ["Hx", "Ey"]))
        for i, (v, p) in enumerate(((a, p1), (b, p2))):
            want = ref_interp(v, [k in p for k in range(n)])
            ctx.check(close(out.data[i], want, dt, 10), "InterpolateNans-two-channels",
                      f"{out.data[i].tolist()} != {want}")

    for p1 in pats:
        for p2 in pats:
            ctx.case({"job": job, "nan_at": [p1, p2]}, one, p1, p2)


def job_chans(job, ctx):
    n_chans, dt = job["n_chans"], job["dtype"]
    chans = ["Hy", "Ex", "Hz", "Ey"][:n_chans]
    n = 5
    data = np.array([[(c + 1) * VALS[k] + c for k in range(n)] for c in range(n_chans)], dtype=dt)
    exact = data.astype(float)

    def fresh():
        return time_data(10, data, chans, T0_ODD)

    def mean(offset, n_used):
        td = time_data(10, data[:, :n_used] + np.array(offset, dtype=dt), chans)
        out = T.RemoveMean().run(td)
        common(ctx, td, out, dt, "RemoveMean")
        x = td.data.astype(float)
        want = x - x.mean(axis=1)[:, None]
        ctx.check(close(out.data, want, dt, np.abs(x).max()), "RemoveMean-values",
                  f"{out.data.tolist()} != {want.tolist()}")
        ctx.check("int" in dt or out.data.dtype == td.data.dtype, "RemoveMean-dtype", str(out.data.dtype))

    for offset in (0.0, 1.5, -1000.0, 1e4):
        for n_used in (1, 2, 3, 5):
            ctx.case({"job": job, "mean": [offset, n_used]}, mean, offset, n_used)

    def arith(cls, field, value, neutral, op):
        td = fresh()
        out = cls(**{field: value}).run(td)
        common(ctx, td, out, dt, cls.__name__)
        for i, c in enumerate(chans):
            v = value.get(c, neutral) if isinstance(value, dict) else value
            ctx.check(close(out.data[i], op(exact[i], v), dt, 100), f"{cls.__name__}-values",
                      f"{c}: {out.data[i].tolist()} with {value}")
            ctx.check(close(out[c], op(exact[i], v), dt, 100), f"{cls.__name__}-channel", f"{c}")
        ctx.check("int" in dt or out.data.dtype == td.data.dtype, f"{cls.__name__}-dtype", str(out.data.dtype))

    for cls, field, neutral, op in (
        (T.Add, "add", 0, lambda x, v: x + v), (T.Multiply, "multiplier", 1, lambda x, v: x * v),
    ):
        for value in (0, 1, 2, -3, 0.5, -0.25, 7.0):
            ctx.case({"job": job, cls.__name__: value}, arith, cls, field, value, neutral, op)
        for r in range(0, n_chans + 1):
            for subset in itertools.combinations(chans, r):
                for sign in (1.0, -2.5, 0.0):
                    value = {c: sign * (i + 1) for i, c in enumerate(subset)}
                    ctx.case({"job": job, cls.__name__: value}, arith, cls, field, value, neutral, op)
                    # unknown channels are ignored, order of the dictionary is irrelevant
                    value = dict(reversed(list({**value, "Bz": 9.0}.items())))
                    ctx.case({"job": job, cls.__name__: value, "extra": 1}, arith, cls, field, value, neutral, op)

    fncs = {
        "square": lambda x: x * x, "neg": lambda x: -x, "plus": lambda x: x + 1,
        "reverse": lambda x: x[::-1],
    }

    def apply(names):
        # soil the heap so that uninitialised memory does not look like a copy
        junk = [np.full(data.shape, 12345.678 + i) for i in range(20)]
        del junk
        td = fresh()
        out = T.ApplyFunction(fncs={c: fncs[f] for c, f in names.items()}).run(td)
        common(ctx, td, out, dt, "ApplyFunction")
        for i, c in enumerate(chans):
            want = fncs[names[c]](exact[i]) if c in names else exact[i]
            ctx.check(close(out.data[i], want, dt, 1000), "ApplyFunction-values",
                      f"{c}: {out.data[i].tolist()} with {names}")

    for assign in itertools.product([None] + sorted(fncs), repeat=n_chans):
        if ctx.tier == "quick" and n_chans == 4 and sum(x is None for x in assign) < 2:
            continue
        names = {c: f for c, f in zip(chans, assign) if f is not None}
        ctx.case({"job": job, "apply": names}, apply, names)
    ctx.case({"job": job, "apply": "unknown"}, apply_unknown, ctx, fresh, exact, dt)


def apply_unknown(ctx, fresh, exact, dt):
    out = T.ApplyFunction(fncs={"Bz": lambda x: x * 0}).run(fresh())
    ctx.check(close(out.data, exact, dt, 1000), "ApplyFunction-unknown", f"{out.data.tolist()}")


def job_shift(job, ctx):
    fs, dt = job["fs"], job["dtype"]
    period = Fraction(1) / Fraction(fs)

    def one(n, frac, n_chans, t0):
        chans = ["Hy", "Ex", "Hz"][:n_chans]
        data = np.array([[VALS[(k * (c + 1)) % 12] for k in range(n)] for c in range(n_chans)], dtype=dt)
        td = time_data(fs, data, chans, t0)
        shift = float(frac * period)
        out = T.ShiftTimestamps(shift=shift).run(td)
        common(ctx, td, out, dt, "ShiftTimestamps", n - 1)
        dating_ok(ctx, out.metadata, fs, t0, Fraction(shift) / period, n - 1, "ShiftTimestamps")
        f = float(frac)
        want = data[:, :-1].astype(float) * (1 - f) + data[:, 1:].astype(float) * f
        ctx.check(close(out.data, want, dt, 10), "ShiftTimestamps-values",
                  f"{out.data.tolist()} != {want.tolist()}")
        ctx.check("int" in dt or out.data.dtype == data.dtype, "ShiftTimestamps-dtype", str(out.data.dtype))

    for n in (2, 3, 4, 7, 12):
        for frac in (Fraction(1, 10), Fraction(1, 4), Fraction(1, 2), Fraction(9, 10), Fraction(1, 3)):
            for n_chans in (1, 2, 3):
                for t0 in (T0, T0_ODD):
                    ctx.case({"job": job, "n": n, "shift": str(frac), "chans": n_chans, "t0": t0.isoformat()},
                             one, n, frac, n_chans, t0)

    def refuse(x):
        td = time_data(fs, np.zeros((1, 4), dtype=dt), ["Ex"])
        ctx.refuses(lambda: T.ShiftTimestamps(shift=x).run(td), "ShiftTimestamps-refuse", f"shift {x} accepted at fs {fs}")

    for x in (0, -0.1 / fs, 1 / fs, 1.5 / fs, 10 / fs):
        ctx.case({"job": job, "refuse": x}, refuse, x)


def job_long_shift(job, ctx):
    """Long recordings: sample positions must not run out of precision"""
    dt = job["dtype"]

    def one(n, frac):
        data = np.zeros((1, n), dtype=dt)
        data[0, 1::2] = 1
        td = time_data(128, data, ["Ex"])
        out = T.ShiftTimestamps(shift=frac / 128).run(td)
        ctx.require(out.data.shape == (1, n - 1), "ShiftTimestamps-long-shape", f"{out.data.shape}")
        want = np.full(n - 1, 1 - frac)
        want[0::2] = frac
        err = np.abs(out.data[0].astype(float) - want)
        ctx.check(err.max() < 1e-4, "ShiftTimestamps-long-record",
                  f"n={n} shift {frac}: worst error {err.max()} at sample {int(err.argmax())}")

    for frac in (0.1, 0.375):
        for log2n in (12, 18, job["log2n"]):
            ctx.case({"job": job, "n": 2**log2n, "frac": frac}, one, 2**log2n, frac)
