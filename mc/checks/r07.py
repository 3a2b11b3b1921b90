"""R07 filters and rate changes in the frequency domain"""
from contextlib import contextmanager
from fractions import Fraction

import numpy as np

from build import T0, T0_ODD, dating_ok, time_data
from ref import ceil_frac

import resistics.time as T
from resistics.errors import ProcessRunError

ID = "R07"
LEVEL = "exploration"
RULE = (
    "every process x parameters x fs x dtype run on every test tone of a frequency grid (sine and cosine, "
    "one tone per channel, and again each alone), compared away from the ends with the tone scaled by the "
    "exact zero phase Butterworth gain (filters) or kept/removed at the exact new sample times (rate changes); "
    "linearity on every pair of basis signals; constants over whole records of several lengths; every cutoff around Nyquist for refusals; "
    "non-trivial: distinct (process, parameters, fs, tone)"
)
ASSUMPTIONS = [
    "tones are compared on the middle part of the record, at least 30% of it away from each end",
    "tones within 25% of a rate change's new Nyquist are not judged",
    "prime decimation factors above 13 are not judged (scipy's own limit for a single step)",
    "each decimation step may lose 1.3% of amplitude (scipy's Chebyshev ripple), resampling 2.5%",
]
FS = [10.0, 0.1, 3.0, 128.0, 24000.0]
FS_T = FS + [1.0, 0.7, 512.0, 65536.0, 1 / 60]
RATIOS = [Fraction(x) for x in ("1/2", "1/3", "2/3", "1/4", "1/5", "3/4", "1", "3/2", "2", "5/4")]
# rates far from small whole ratios
RATIOS_ODD = [Fraction(x) for x in ("127/128", "101/250", "1/131", "50/307", "211/113", "3/103", "499/1000", "128/125")]


def BOUNDS(tier):
    return {"fs": FS if tier == "quick" else FS_T, "tones": 24, "decimation_factors": "1..36 with max step 2..7"}


def jobs(tier):
    for i, fs in enumerate(FS if tier == "quick" else FS_T):
        for dt in ("float64", "float32"):
            for kind in ("low", "high", "band", "notch", "resample", "refuse"):
                yield {"kind": kind, "fs": fs, "dtype": dt}
            yield {"kind": "decimate", "fs": fs, "dtype": dt, "max": [2, 3, 4, 5, 7]}
    for kind in ("low", "high", "band", "notch", "resample", "decimate"):
        yield {"kind": "linear", "what": kind}
        yield {"kind": "integers", "what": kind}
        yield {"kind": "constant", "what": kind}


N = 3000


def tones(fs, freqs, n, dt):
    k = np.arange(n)
    rows = []
    for i, f in enumerate(freqs):
        arg = 2 * np.pi * float(f) * k
        rows.append((np.cos(arg) if i % 2 else np.sin(arg)) * (1 + i % 3))
    return np.array(rows).astype(dt)


def record(fs, data, t0=T0_ODD):
    chans = [f"Ex{i}" for i in range(len(data))] if len(data) > 3 else ["Hy", "Ex", "Hz"][: len(data)]
    td = time_data(fs, data, ["Hy", "Ex", "Hz"][: min(3, len(data))], t0) if len(data) <= 3 else None
    if td is None:
        from ref import time_at

        meta = T.TimeMetadata(
            fs=fs, chans=chans, n_samples=data.shape[1], first_time=t0,
            last_time=time_at(t0, Fraction(data.shape[1] - 1) / Fraction(fs)),
            chans_metadata={c: T.ChanMetadata(name=c, chan_type="electric") for c in chans},
        )
        td = T.TimeData(meta, np.array(data))
    return td


def w_of(f):
    return np.tan(np.pi * f)


# tone frequencies as fractions of fs
GRID = [0.004, 0.011, 0.02, 0.03, 0.045, 0.06, 0.08, 0.1, 0.125, 0.15, 0.175, 0.2,
        0.22, 0.25, 0.28, 0.3, 0.33, 0.35, 0.37, 0.4, 0.42, 0.45, 0.47, 0.49]


def lp_gain(f, fc, order):
    return 1 / (1 + (w_of(f) / w_of(fc)) ** (2 * order))


def hp_gain(f, fc, order):
    return 1 / (1 + (w_of(fc) / w_of(f)) ** (2 * order))


def bp_gain(f, f1, f2, order):
    w, w1, w2 = w_of(f), w_of(f1), w_of(f2)
    return 1 / (1 + ((w * w - w1 * w2) / (w * (w2 - w1))) ** (2 * order))


def bs_gain(f, f1, f2, order):
    if f2 >= 0.5:
        return lp_gain(f, f1, order)
    w, w1, w2 = w_of(f), w_of(f1), w_of(f2)
    den = w * w - w1 * w2
    if abs(den) < 1e-12:
        return 0.0
    return 1 / (1 + (w * (w2 - w1) / den) ** (2 * order))


def filters(kind, fs):
    """(process, gain function) pairs, parameters relative to fs"""
    orders = (3, 6, 10)
    if kind == "low":
        for fc in (0.025, 0.05, 0.125, 0.2, 0.31, 0.45, 0.48, 0.495):
            for o in orders:
                yield T.LowPass(cutoff=fc * fs, order=o), lambda f, fc=fc, o=o: lp_gain(f, fc, o)
        yield T.LowPass(cutoff=0.1 * fs), lambda f: lp_gain(f, 0.1, 10)
    if kind == "high":
        for fc in (0.025, 0.05, 0.125, 0.2, 0.31, 0.45, 0.48, 0.495):
            for o in orders:
                yield T.HighPass(cutoff=fc * fs, order=o), lambda f, fc=fc, o=o: hp_gain(f, fc, o)
        yield T.HighPass(cutoff=0.1 * fs), lambda f: hp_gain(f, 0.1, 10)
    if kind == "band":
        for f1, f2 in ((0.04, 0.12), (0.1, 0.3), (0.06, 0.44), (0.3, 0.42), (0.43, 0.485), (0.02, 0.49)):
            for o in orders[:2]:
                yield (T.BandPass(cutoff_low=f1 * fs, cutoff_high=f2 * fs, order=o),
                       lambda f, f1=f1, f2=f2, o=o: bp_gain(f, f1, f2, o))
        yield T.BandPass(cutoff_low=0.1 * fs, cutoff_high=0.25 * fs), lambda f: bp_gain(f, 0.1, 0.25, 10)
    if kind == "notch":
        for c, b in ((0.1, 0.08), (0.2, 0.1), (0.3, 0.2), (0.4, 0.1), (0.45, 0.1), (0.47, 0.16), (0.25, 0.05)):
            for o in orders[:2]:
                yield (T.Notch(notch=c * fs, band=b * fs, order=o),
                       lambda f, c=c, b=b, o=o: bs_gain(f, c - b / 2, min(0.5, c + b / 2), o))
        # the default band is a tenth of the sampling frequency
        for c in (0.1, 0.2, 0.35, 0.46):
            yield T.Notch(notch=c * fs, order=4), lambda f, c=c: bs_gain(f, c - 0.05, min(0.5, c + 0.05), 4)


def run_job(job, ctx):
    kind = job["kind"]
    if kind in ("low", "high", "band", "notch"):
        return job_filter(job, ctx)
    globals()["job_" + kind](job, ctx)


def tol(dt):
    return 3e-3 if dt == "float64" else 4e-3


def job_filter(job, ctx):
    fs, dt, kind = job["fs"], job["dtype"], job["kind"]
    data = tones(fs, GRID, N, dt)
    alone = range(0, len(GRID), 6 if ctx.tier == "quick" else 2)

    def one(proc, gain):
        out = proc.run(record(fs, data))
        ctx.require(out.data.shape == data.shape and out.data.dtype == data.dtype, f"{kind}-shape", "")
        ctx.check(out.metadata.fs == fs, f"{kind}-fs", "")
        dating_ok(ctx, out.metadata, fs, T0_ODD, 0, N, kind)
        a, b = int(N * 0.35), int(N * 0.65)
        for i, f in enumerate(GRID):
            g = gain(f)
            err = np.abs(out.data[i, a:b] - g * data[i, a:b]).max() / (1 + i % 3)
            # a phase shift shows against the zero phase tone
            ctx.check(err <= tol(dt), f"{kind}-response",
                      f"{proc.json()} fs {fs}: tone {f}*fs expected gain {g:.4f}, error {err:.4f}")
            ctx.nontriv((kind, proc.json(), fs, dt, f))
        for i in alone:
            single = proc.run(record(fs, data[i : i + 1]))
            ctx.check(np.abs(single.data[0] - out.data[i]).max() <= 1e-5,
                      f"{kind}-channel-cross-talk", f"{proc.json()}: channel {i} depends on the others")

    for proc, gain in filters(kind, fs):
        ctx.case({"job": job, "process": proc.json()}, one, proc, gain, nontrivial=False)


def judge_rate(ctx, key, out, data, fs, new_fs, n_new, freqs, dt, what, in_band=0.025):
    """Tones below the lower Nyquist stay at their times, those above go"""
    ctx.require(out.data.shape == (len(data), n_new), f"{key}-n_samples", f"{what}: {out.data.shape} != {n_new}")
    ctx.check(out.data.dtype == data.dtype, f"{key}-dtype", str(out.data.dtype))
    ctx.check(abs(out.metadata.fs - new_fs) <= 1e-9 * new_fs, f"{key}-fs", f"{out.metadata.fs} != {new_fs}")
    dating_ok(ctx, out.metadata, Fraction(new_fs).limit_denominator(10**9), T0_ODD, 0, n_new, key)
    ratio = new_fs / fs
    nyq = min(1.0, ratio) / 2
    k = np.arange(n_new)
    a, b = int(n_new * 0.35), int(n_new * 0.65)
    for i, f in enumerate(freqs):
        arg = 2 * np.pi * f * k / ratio
        want = (np.cos(arg) if i % 2 else np.sin(arg)) * (1 + i % 3)
        if f <= 0.75 * nyq:
            err = np.abs(out.data[i, a:b] - want[a:b]).max() / (1 + i % 3)
            ctx.check(err <= in_band, f"{key}-in-band", f"{what}: tone {f}*fs error {err:.4f}")
        elif f >= 1.25 * nyq and ratio < 1:
            err = np.abs(out.data[i, a:b]).max() / (1 + i % 3)
            ctx.check(err <= 0.03, f"{key}-alias", f"{what}: tone {f}*fs left with amplitude {err:.4f}")
        ctx.nontriv((key, what, fs, dt, f))


def job_resample(job, ctx):
    fs, dt = job["fs"], job["dtype"]

    def one(ratio, n):
        data = tones(fs, GRID, n, dt)
        new_fs = float(Fraction(fs).limit_denominator(10**6) * ratio)
        out = T.Resample(new_fs=new_fs).run(record(fs, data))
        judge_rate(ctx, "resample", out, data, fs, new_fs, ceil_frac(n * ratio), GRID, dt, f"{fs}->{new_fs} n={n}")
        single = T.Resample(new_fs=new_fs).run(record(fs, data[4:5]))
        ctx.check(np.abs(single.data[0] - out.data[4]).max() <= 1e-5, "resample-channel-cross-talk", f"{new_fs}")
        if ratio == 1:
            ctx.check(np.abs(out.data - data).max() <= 1e-5, "resample-same-rate", "data changed")

    for ratio in RATIOS + RATIOS_ODD:
        # enough samples that a third of the output is clear of the ends
        for n in (800, 801, 807) if ratio > Fraction(1, 10) else (40 * ratio.denominator + 1,):
            ctx.case({"job": job, "ratio": str(ratio), "n": n}, one, ratio, n, nontrivial=False)


def largest_prime(n):
    p, best = 2, 1
    while n > 1:
        while n % p == 0:
            best, n = p, n // p
        p += 1
    return best


def n_primes(n):
    return 0 if n == 1 else next(1 + n_primes(n // p) for p in range(2, n + 1) if n % p == 0)


@contextmanager
def single_steps():
    """Records the factors that scipy decimates by, none if it is not used"""
    import scipy.signal

    steps, real = [], scipy.signal.decimate

    def decimate(x, q, *args, **kwargs):
        steps.append(q)
        return real(x, q, *args, **kwargs)

    scipy.signal.decimate = decimate
    try:
        yield steps
    finally:
        scipy.signal.decimate = real


def job_decimate(job, ctx):
    fs, dt = job["fs"], job["dtype"]

    def one(factor, top, n):
        freqs = [f / factor * 0.5 for f in (0.02, 0.1, 0.3, 0.5, 0.7)]
        freqs += [f for f in GRID if f * 2 * factor >= 1.25]
        data = tones(fs, freqs, n, dt)
        proc = T.Decimate(factor=factor, max_single_factor=top) if top != 3 else T.Decimate(factor=factor)
        with single_steps() as steps:
            out = proc.run(record(fs, data))
        if steps:
            # a prime factor can not be split
            too_big = [q for q in steps if q > top and n_primes(q) > 1]
            ctx.check(not too_big and int(np.prod(steps)) == factor, "decimate-steps", f"factor {factor} max {top}: steps {steps}")
        new_fs = fs / factor
        judge_rate(ctx, "decimate", out, data, fs, new_fs, -(-n // factor), freqs, dt,
                   f"factor {factor} max {top} fs {fs} n={n}", in_band=0.01 + 0.013 * n_primes(factor))
        if factor == 1:
            ctx.check(np.array_equal(out.data, data), "decimate-by-one", "data changed")

    for factor in range(1, 37):
        if largest_prime(factor) > 13:
            continue
        for top in job["max"]:
            n = max(600, 90 * factor)
            for extra in (0, 1) if factor < 13 else (1,):
                ctx.case({"job": job, "factor": factor, "max": top, "n": n + extra},
                         one, factor, top, n + extra, nontrivial=False)


def job_refuse(job, ctx):
    fs, dt = job["fs"], job["dtype"]
    data = tones(fs, GRID[:2], 500, dt)
    nyq = fs / 2

    def one(proc, bad):
        td = record(fs, data)
        if bad:
            ctx.refuses(lambda: proc.run(td), "refuse", f"{proc.json()} accepted at fs {fs}", ProcessRunError)
        else:
            proc.run(td)

    for x in (0.2, 0.5, 0.9, 0.99):
        for cls in (T.LowPass, T.HighPass):
            ctx.case({"job": job, "cutoff": x}, one, cls(cutoff=x * nyq, order=2), False)
        ctx.case({"job": job, "notch": x}, one, T.Notch(notch=x * nyq, band=0.1 * nyq, order=2), False)
        ctx.case({"job": job, "notch": x, "band": None}, one, T.Notch(notch=max(x, 0.3) * nyq, order=2), False)
    for x in (1.001, 1.5, 2, 10):
        for cls in (T.LowPass, T.HighPass):
            ctx.case({"job": job, "cutoff": x}, one, cls(cutoff=x * nyq), True)
        ctx.case({"job": job, "notch": x}, one, T.Notch(notch=x * nyq), True)
        ctx.case({"job": job, "band": x}, one, T.BandPass(cutoff_low=0.1 * nyq, cutoff_high=x * nyq), True)
    for lo, hi in ((0.5, 0.3), (0.9, 0.1)):
        ctx.case({"job": job, "band": [lo, hi]}, one, T.BandPass(cutoff_low=lo * nyq, cutoff_high=hi * nyq), True)


def processes(what, fs):
    if what == "resample":
        return [T.Resample(new_fs=x) for x in (8.0, 24.0, 5.0)]
    if what == "decimate":
        return [T.Decimate(factor=x) for x in (2, 3, 4, 6)]
    return [p for p, _ in filters(what, fs) if p.order <= 6]


def job_integers(job, ctx):
    """Recordings of integers are processed as the values they are"""
    fs, what, n = 16.0, job["what"], 400
    k = np.arange(n)

    def one(proc, dt, scale):
        data = np.round(scale * np.array([np.sin(0.1 * k), np.cos(0.7 * k), np.sin(0.02 * k) + np.sin(2 * k)])).astype(dt)
        want = proc.run(record(fs, data.astype(np.float64)))
        out = proc.run(record(fs, data))
        ctx.require(out.data.shape == want.data.shape, f"{what}-integers-shape", "")
        ctx.check(out.metadata.fs == want.metadata.fs and out.metadata.n_samples == want.metadata.n_samples, f"{what}-integers-metadata", "")
        err = np.abs(out.data - want.data).max() / scale
        ctx.check(err <= 1e-5, f"{what}-integers", f"{proc.json()} {dt} amplitude {scale}: relative error {err}")

    for proc in processes(what, fs):
        for dt in ("int8", "int16", "int32", "int64"):
            for scale in (1, 3, 20, 100):
                ctx.case({"job": job, "process": proc.json(), "dtype": dt, "scale": scale}, one, proc, dt, scale)


def job_constant(job, ctx):
    """The offset of a channel is kept or removed over the whole record, ends and short records included"""
    what = job["what"]

    def one(proc, fs, n, dt, level):
        data = np.array([np.full(n, level), np.full(n, -level), np.zeros(n)]).astype(dt)
        out = proc.run(record(fs, data))
        want = 0 if what in ("high", "band") else 1
        ends = out.data[:, [0, -1]]
        lost = 0.013 * n_primes(proc.factor) if what == "decimate" else 0.0
        err = np.abs(out.data - want * data[:, :1]).max() / level
        ctx.check(err <= lost + 5e-3, f"{what}-constant",
                  f"{proc.json()} fs {fs} n={n} {dt}: constant {level} off by {err:.3f}, ends {ends[0].tolist()}")

    for fs in (16.0, 0.1):
        for proc in constant_processes(what, fs):
            for n in (150, 333, 1000, 1001, 3000):
                for dt in ("float64", "float32"):
                    for level in (1.0, 5.0, 30000.0):
                        ctx.case({"job": job, "process": proc.json(), "fs": fs, "n": n, "dtype": dt, "level": level},
                                 one, proc, fs, n, dt, level)


def constant_processes(what, fs):
    if what == "resample":
        return [T.Resample(new_fs=float(x) * fs) for x in RATIOS]
    if what == "decimate":
        return [T.Decimate(factor=x) for x in (1, 2, 3, 4, 5, 6, 9)]
    if what == "low":
        return [T.LowPass(cutoff=x * fs, order=o) for x in (0.05, 0.2, 0.45) for o in (2, 6)]
    if what == "high":
        return [T.HighPass(cutoff=x * fs, order=o) for x in (0.05, 0.2, 0.45) for o in (2, 6)]
    if what == "band":
        return [T.BandPass(cutoff_low=0.1 * fs, cutoff_high=0.3 * fs, order=o) for o in (2, 4)]
    return [T.Notch(notch=x * fs, band=0.1 * fs, order=o) for x in (0.15, 0.3) for o in (2, 4)]


def job_linear(job, ctx):
    fs, what, n = 16.0, job["what"], 240
    k = np.arange(n)
    basis = [np.sin(0.2 * k), np.cos(1.1 * k), (k == 120) * 1.0, (k == 3) * 1.0, np.ones(n), k * 0.01, (-1.0) ** k]
    procs = processes(what, fs)

    def one(proc, i, j, a, b):
        x, y = basis[i], basis[j]
        z = proc.run(record(fs, np.array([x, y, a * x + b * y]))).data
        err = np.abs(z[2] - a * z[0] - b * z[1]).max()
        ctx.check(err <= 1e-6, f"{what}-not-linear", f"{proc.json()} signals {i},{j}: error {err}")
        r = proc.run(record(fs, np.array([x[::-1]]))).data
        if what in ("low", "high", "band", "notch"):
            err = np.abs(r[0, ::-1] - z[0])[n // 3 : 2 * n // 3].max()
            ctx.check(err <= 2e-2, f"{what}-not-symmetric", f"{proc.json()} signal {i}: {err}")

    for proc in procs:
        for i in range(len(basis)):
            for j in range(i + 1, len(basis)):
                for a, b in ((1.0, 1.0), (-2.5, 3.0)):
                    ctx.case({"job": job, "process": proc.json(), "signals": [i, j], "weights": [a, b]},
                             one, proc, i, j, a, b)
