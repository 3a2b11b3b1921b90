"""R04 any chain of time processes gives consistent, correctly dated data"""
from fractions import Fraction

import numpy as np

from build import T0_ODD, time_data, dating_ok, snapshot, station_of, STATION, chan_meta
from ref import time_at, secs_between, ceil_frac, floor_frac

import resistics.time as T
from resistics.errors import ProcessRunError

ID = "R04"
LEVEL = "model_checking"
TECHNIQUE = (
    "explicit-state search over all sequences of process applications up to the depth bound; every "
    "transition of the timeline model (fs, offset, n, dtype, history) is executed on the real code"
)
RULE = (
    "depth-first enumeration of every sequence of the process alphabet from each start; the model "
    "(exact fs, start offset, number of samples, enabledness) is compared with the real data after each "
    "step, values with the same process on freshly built data and with defining formulas; states are "
    "(model state, data digest)"
)
ASSUMPTIONS = [
    "filter-like processes are only applied to records longer than 70 samples (shorter ones are below scipy's padding)",
    "numerical filter values themselves are decided by R07; here they must not depend on the history of the data",
]
STARTS = {
    "10Hz": dict(fs=10.0, n=261, chans=["Hy", "Ex"], dtype="float64"),
    "0.1Hz": dict(fs=0.1, n=250, chans=["Ex"], dtype="float32"),
    "3Hz": dict(fs=3.0, n=255, chans=["Ey", "Hx", "Hz"], dtype="float32"),
}


def BOUNDS(tier):
    return {"depth": depth(tier), "starts": starts(tier), "operations": sorted(make_ops(STARTS["10Hz"]))}


def depth(tier):
    return 3 if tier == "quick" else 4


def starts(tier):
    return list(STARTS) if tier != "quick" else ["10Hz", "0.1Hz"]


class Model(object):
    """The timeline a user believes in: exact rational fs, start and length"""

    def __init__(self, fs, n, off=Fraction(0), names=()):
        self.fs, self.n, self.off, self.names = fs, n, off, names

    def key(self):
        return (self.fs, self.n, self.off)


def text(offset):
    return time_at(T0_ODD, offset).isoformat()


def make_ops(start):
    """name -> (needs long data, make(model, td) -> process or None, model step, value oracle)"""
    fs0 = Fraction(start["fs"]).limit_denominator(1000)
    c0 = start["chans"][0]
    ops = {}

    def same(m):
        return m.fs, m.n, m.off

    def refuse(m):
        return None

    def add(name, make, step, values=None, long=False):
        ops[name] = (make, step, values, long)

    # both ends on samples, both between samples, and reaching past the end
    def sub_step(lo, hi):
        def span(m):
            return max(0, ceil_frac(Fraction(lo) * m.n)), min(m.n - 1, floor_frac(Fraction(hi) * m.n))

        def make(m, td):
            a, b = span(m)
            return T.Subsection(
                from_time=text(m.off + (a - Fraction(1, 3)) / m.fs if a > 0 else m.off - 3 / m.fs),
                to_time=text(
                    m.off + (b + Fraction(1, 3)) / m.fs if b < m.n - 1 else m.off + (m.n + 5) / m.fs
                ),
            )

        def step(m):
            a, b = span(m)
            return m.fs, b - a + 1, m.off + a / m.fs

        def values(m, x):
            a, b = span(m)
            return x[:, a : b + 1], 0

        return make, step, values

    for nm, lo, hi in (
        ("sub-mid", Fraction(1, 10), Fraction(9, 10)), ("sub-head", Fraction(-1), Fraction(4, 5)),
        ("sub-tail", Fraction(1, 7), Fraction(3)),
    ):
        mk, st, va = sub_step(lo, hi)
        add(nm, mk, st, va)
    add("mean", lambda m, td: T.RemoveMean(), same, lambda m, x: (x - x.mean(axis=1)[:, None], 1e-5))
    add("interp", lambda m, td: T.InterpolateNans(), same, lambda m, x: (x, 0))
    add("add", lambda m, td: T.Add(add={c0: 2.5}), same,
        lambda m, x: (x + np.array([2.5] + [0] * (len(x) - 1))[:, None], 1e-5))
    add("mult", lambda m, td: T.Multiply(multiplier={c0: -0.5}), same,
        lambda m, x: (x * np.array([-0.5] + [1] * (len(x) - 1))[:, None], 1e-5))
    add("apply", lambda m, td: T.ApplyFunction(fncs={c0: lambda v: v * v}), same,
        lambda m, x: (np.concatenate((x[:1] ** 2, x[1:])), 1e-5))

    def nyq(cut):
        return lambda m: same(m) if cut <= m.fs / 2 else None

    # absolute cutoffs: whether they are allowed depends on the history
    low, high = fs0 * Fraction(3, 10), fs0 * Fraction(1, 50)
    add("low", lambda m, td: T.LowPass(cutoff=float(low), order=3), nyq(low), long=True)
    add("high", lambda m, td: T.HighPass(cutoff=float(high), order=3), nyq(high), long=True)
    add("band", lambda m, td: T.BandPass(cutoff_low=float(high), cutoff_high=float(fs0 / 5), order=2),
        nyq(fs0 / 5), long=True)
    add("notch", lambda m, td: T.Notch(notch=float(fs0 / 8), band=float(fs0 / 20), order=2),
        nyq(fs0 / 8), long=True)

    def resamp(ratio):
        return (
            lambda m, td: T.Resample(new_fs=float(m.fs * ratio)),
            lambda m: (m.fs * ratio, ceil_frac(m.n * ratio), m.off),
        )

    for nm, ratio in (("resample-1/2", Fraction(1, 2)), ("resample-3/2", Fraction(3, 2)), ("resample-1", Fraction(1))):
        mk, st = resamp(ratio)
        add(nm, mk, st, long=True)

    def decim(q):
        return (
            lambda m, td: T.Decimate(factor=q),
            lambda m: (m.fs / q, ceil_frac(Fraction(m.n, q)), m.off),
        )

    for q in (2, 3):
        mk, st = decim(q)
        add(f"decimate-{q}", mk, st, long=True)

    # absolute shift of six tenths of the original period: refused once the data are faster
    shift = 0.6 / float(fs0)

    def shift_values(m, x):
        f = shift * float(m.fs)
        return x[:, :-1] * (1 - f) + x[:, 1:] * f, 1e-5

    add("shift", lambda m, td: T.ShiftTimestamps(shift=shift),
        lambda m: (m.fs, m.n - 1, m.off + Fraction(shift)) if Fraction(shift) < 1 / m.fs else None, shift_values)
    return ops


def jobs(tier):
    for s in starts(tier):
        for op in make_ops(STARTS[s]):
            yield {"start": s, "first": op}


def start_data(start):
    n = start["n"]
    k = np.arange(n)
    rows = [
        np.sin(2 * np.pi * k * (0.03 + 0.05 * c)) * (3 + c) + (k % 7) * 0.25 + c
        for c in range(len(start["chans"]))
    ]
    return time_data(start["fs"], np.array(rows).astype(start["dtype"]), start["chans"], T0_ODD)


def apply_op(ctx, ops, name, m, td, start, path):
    """Execute one transition, returns (model, data) or None when refused"""
    make, step, values, long = ops[name]
    before = snapshot(td)
    want = step(m)
    proc = make(m, td)
    ctx.transitions += 1
    key = name.split("-")[0]
    if want is None:
        ctx.refuses(lambda: proc.run(td), f"{key}-not-refused",
                    f"{name} must be refused at fs={m.fs}", ProcessRunError)
        ctx.check(snapshot(td) == before, f"{key}-refused-changed-input", "input changed")
        return None
    out = proc.run(td)
    fs, n, off = want
    m2 = Model(fs, n, off, m.names + (proc.name,))
    ctx.require(out.data.shape == (len(start["chans"]), n), f"{key}-shape",
                f"{name}: data {out.data.shape}, model says {n} samples")
    ctx.check(abs(out.metadata.fs - float(fs)) <= 1e-9 * float(fs), f"{key}-fs", f"{out.metadata.fs} != {fs}")
    dating_ok(ctx, out.metadata, fs, T0_ODD, off * fs, n, key)
    ctx.check(out.metadata.chans == start["chans"] and out.metadata.n_chans == len(start["chans"]),
              f"{key}-chans", f"{out.metadata.chans}")
    ctx.check(station_of(out.metadata) == STATION, f"{key}-station", "station metadata lost")
    ctx.check(
        out.metadata.chans_metadata == {c: chan_meta(c, i) for i, c in enumerate(start["chans"])},
        f"{key}-chans_metadata", "channel metadata changed",
    )
    names = tuple(r.creator["name"] for r in out.metadata.history.records)
    ctx.check(names == m2.names, f"{key}-history", f"{names} after {m2.names}")
    ctx.check(bool(np.all(np.isfinite(out.data))), f"{key}-finite", "not finite")
    if name != "apply":
        ctx.check(out.data.dtype == td.data.dtype, f"{key}-dtype", f"{td.data.dtype} -> {out.data.dtype}")
    for i, c in enumerate(start["chans"]):
        ctx.check(np.array_equal(out[c], out.data[i]), f"{key}-channel", f"{c} gives another channel")
    if values is not None:
        ref, rtol = values(m, td.data.astype(np.float64))
        err = np.abs(out.data - ref).max()
        scale = max(1.0, np.abs(ref).max())
        ctx.check(err <= rtol * scale, f"{key}-values", f"differs from definition by {err}")
    ctx.check(snapshot(td) == before, f"{key}-changed-input", "input changed")
    # the same process on data built from scratch with the same timeline
    fresh = time_data(td.metadata.fs, td.data, start["chans"], time_at(T0_ODD, m.off))
    try:
        again = make(m, fresh).run(fresh)
    except Exception as e:
        ctx.fail(f"{key}-history-dependent", f"{name} fails on fresh data: {e}")
        return m2, out
    ctx.check(again.data.shape == out.data.shape and np.array_equal(again.data, out.data),
              f"{key}-history-dependent", f"{name} gives other values on freshly built equal data")
    ctx.traces += 1
    return m2, out


def timestamps_ok(ctx, m, td):
    times = td.get_timestamps(estimate=False)
    ctx.check(len(times) == m.n, "timestamps-length", f"{len(times)} != {m.n}")
    for k in (0, m.n // 2, m.n - 1):
        err = abs(secs_between(times[k], T0_ODD) - (m.off + k / m.fs)) * m.fs
        ctx.check(err < Fraction(1, 10**4), "timestamps", f"sample {k} off by {float(err)} samples")


def run_job(job, ctx):
    start = STARTS[job["start"]]
    ops = make_ops(start)
    top = depth(ctx.tier)

    def walk(m, td, path):
        if not ctx.state((job["start"], m.key(), m.names and td.data.tobytes())):
            # same timeline and same values were expanded with at least this much depth left only
            # when reached on an equally short path, so expand again only if shorter
            if seen.get((m.key(), td.data.tobytes()), 0) >= top - len(path):
                return
        seen[(m.key(), td.data.tobytes())] = top - len(path)
        timestamps_ok(ctx, m, td)
        if len(path) == top:
            return
        for name in ops if path else [job["first"]]:
            if ops[name][3] and m.n <= 75:
                continue
            res = ctx.case({"start": job["start"], "path": path + [name]},
                           apply_op, ctx, ops, name, m, td, start, path)
            if res is not None:
                walk(res[0], res[1], path + [name])

    seen = {}
    walk(Model(Fraction(start["fs"]).limit_denominator(1000), start["n"]), start_data(start), [])
