"""R12 spectra are the windowed Fourier transform read off at evaluation frequencies"""
import itertools

import numpy as np

from build import STATION, chan_meta, station_of, windowed_data, spectra_data, snapshot

import resistics.decimate as D
import resistics.spectra as S

ID = "R12"
LEVEL = "exploration"
RULE = (
    "every window size x taper x detrend x data type x level/window/channel layout: the complete linear operator "
    "(a unit impulse at every sample of a window) and mixed data are transformed and compared with a direct "
    "O(n^2) discrete Fourier sum of the detrended tapered window; every evaluation frequency position (on a bin, "
    "between bins, outside) x layout against direct interpolation; every smoother length and sigma against a "
    "direct reflected sum; non-trivial: distinct (layout, option) cases"
)
ASSUMPTIONS = [
    "the FFT length is the next fast real FFT length at or above the window size",
    "scipy's window functions define the named tapers; kaiser, hann and boxcar are recomputed",
]
CHANS = ["Hy", "Ex", "Hz"]
SIZES = [2, 3, 5, 8, 13, 16, 23]
TAPERS = [("kaiser", 14), "hann", "boxcar", "dpss", ("gaussian", 3.0), "hamming"]


def BOUNDS(tier):
    return {"win_size": sizes(tier), "tapers": [str(x) for x in TAPERS], "windows": "1..5", "channels": "1..3", "levels": "1..3"}


def sizes(tier):
    return SIZES if tier == "quick" else list(range(2, 40)) + [61, 97, 128]


def jobs(tier):
    for w in sizes(tier):
        yield {"kind": "operator", "win": w}
    for dt in ("float32", "float64", "int64"):
        yield {"kind": "layout", "dtype": dt}
    for dt in ("complex64", "complex128"):
        for nf in (2, 5) if tier == "quick" else range(2, 20):
            yield {"kind": "eval", "dtype": dt, "n_freqs": nf}
    for nf in (1, 3, 10) if tier == "quick" else list(range(1, 30)) + [60]:
        yield {"kind": "smooth", "n_freqs": nf}
    yield {"kind": "chain"}
    for part in ("fourier", "eval", "smooth"):
        yield {"kind": "large", "part": part}


def run_job(job, ctx):
    globals()["job_" + job["kind"]](job, ctx)


def taper(name, n):
    if name == "boxcar":
        return np.ones(n)
    if name == "hann":
        return 0.5 - 0.5 * np.cos(2 * np.pi * np.arange(n) / n)
    if name == "hamming":
        return 0.54 - 0.46 * np.cos(2 * np.pi * np.arange(n) / n)
    if isinstance(name, tuple) and name[0] == "kaiser":
        x = 2 * np.arange(n) / n - 1
        return np.i0(name[1] * np.sqrt(np.maximum(0, 1 - x**2))) / np.i0(float(name[1]))
    if isinstance(name, tuple) and name[0] == "gaussian":
        return np.exp(-0.5 * ((np.arange(n) - n / 2) / name[1]) ** 2)
    from scipy.signal.windows import dpss

    return dpss(n, 5)


def detrended(x, kind):
    """x: (..., n) float64"""
    n = x.shape[-1]
    if kind is None:
        return x
    x = x - x.mean(axis=-1, keepdims=True)
    if kind == "constant" or n == 1:
        return x
    t = np.arange(n) - (n - 1) / 2
    return x - t * ((x * t).sum(axis=-1, keepdims=True) / (t * t).sum())


def fast_len(n):
    from scipy.fft import next_fast_len

    return next_fast_len(n, real=True)


def dft(x, n_fft):
    n = x.shape[-1]
    k = np.arange(n_fft // 2 + 1)
    basis = np.exp(-2j * np.pi * np.outer(np.arange(n), k) / n_fft)
    return x @ basis / np.sqrt(n_fft)


def reference(x, win_fnc, kind):
    x = x.astype("float64")
    return dft(detrended(x, kind) * taper(win_fnc, x.shape[-1]), fast_len(x.shape[-1]))


def judge(ctx, wd, out, win_fnc, kind, key):
    ctx.require(out.metadata.n_levels == wd.metadata.n_levels and sorted(out.data) == sorted(wd.data), key + "-levels", "")
    for lvl, arr in wd.data.items():
        want = reference(arr, win_fnc, kind)
        got = out.get_level(lvl)
        ctx.require(got.shape == want.shape, key + "-shape", f"{got.shape} expected {want.shape}")
        tol = 1e-4 if arr.dtype == np.float32 else 1e-9
        err = np.abs(got - want).max() if want.size else 0
        ctx.check(err <= tol * max(1, np.abs(arr).max()) * np.sqrt(arr.shape[-1]), key + "-values",
                  lambda: f"level {lvl} differs by {err} at {np.unravel_index(np.argmax(np.abs(got - want)), got.shape)}")
        lm, win_lm = out.metadata.levels_metadata[lvl], wd.metadata.levels_metadata[lvl]
        n_fft = fast_len(arr.shape[-1])
        freqs = np.arange(n_fft // 2 + 1) * win_lm.fs / n_fft
        ctx.check(lm.n_freqs == len(freqs) and len(lm.freqs) == len(freqs) and np.allclose(lm.freqs, freqs, rtol=1e-12),
                  key + "-freqs", f"level {lvl} {lm.freqs[:4]} expected {freqs[:4]}")
        for field in ("fs", "n_wins", "win_size", "olap_size", "index_offset"):
            ctx.check(getattr(lm, field) == getattr(win_lm, field), key + "-level-metadata", f"level {lvl} {field}")
    metadata_kept(ctx, wd.metadata, out.metadata, key)


def metadata_kept(ctx, before, after, key):
    ctx.check(after.chans == before.chans and after.chans_metadata == before.chans_metadata and after.fs == before.fs
              and after.ref_time == before.ref_time and after.first_time == before.first_time
              and after.last_time == before.last_time and station_of(after) == station_of(before),
              key + "-metadata", "metadata not carried through")


def job_operator(job, ctx):
    n = job["win"]

    def one(win_fnc, kind, dtype, workers, fs):
        eye = np.eye(n)
        arr = np.stack([eye, np.roll(eye, 1, axis=1)[::-1]], axis=1).astype(dtype)
        wd = windowed_data([arr], [fs], CHANS[:2], offset=5)
        out = S.FourierTransform(win_fnc=win_fnc, detrend=kind, workers=workers).run(wd)
        judge(ctx, wd, out, win_fnc, kind, "operator")
        # one window and one channel at a time gives the same
        for i, c in ((0, 0), (n - 1, 1), (n // 2, 0)):
            one = windowed_data([np.array(arr[i:i + 1, c:c + 1])], [fs], CHANS[c:c + 1])
            alone = S.FourierTransform(win_fnc=win_fnc, detrend=kind, workers=workers).run(one).get_level(0)
            ctx.check(alone.shape == (1, 1, out.get_level(0).shape[2]) and np.allclose(alone[0, 0], out.get_level(0)[i, c], atol=1e-5 if dtype == "float32" else 1e-12),
                      "operator-independence", f"window {i} channel {c}")

    for win_fnc in TAPERS:
        if win_fnc == "dpss" and n <= 10:
            continue  # needs a half bandwidth below n/2
        for kind in ("linear", "constant", None):
            for dtype in ("float32", "float64", "int64"):
                for workers, fs in ((1, 128.0), (2, 0.1)):
                    ctx.case({"job": job, "taper": str(win_fnc), "detrend": kind, "dtype": dtype, "workers": workers, "fs": fs},
                             one, win_fnc, kind, dtype, workers, fs)


def mixed(n_wins, n_chans, n, dtype, seed):
    rng = np.random.RandomState(seed)
    x = rng.randint(-1000, 1000, size=(n_wins, n_chans, n)) + 300 * np.arange(n_chans)[None, :, None]
    x = x + (7 * np.arange(n) * (1 + np.arange(n_wins)[:, None, None]))
    return x.astype(dtype)


def job_layout(job, ctx):
    dtype = job["dtype"]

    def one(shape, sizes, n_chans, kind, win_fnc, transposed):
        arrays = []
        for i, (w, n) in enumerate(zip(shape, sizes)):
            arr = mixed(w, n_chans, n, dtype, 17 * i + w + n)
            if transposed:  # memory order of windows built as views
                arr = np.ascontiguousarray(arr.transpose(2, 0, 1)).transpose(1, 2, 0)
            arrays.append(arr)
        fs = [256.0 / 4**i for i in range(len(shape))]
        wd = windowed_data(arrays, fs, CHANS[:n_chans], offset=len(shape))
        before = snapshot(wd)
        ft = S.FourierTransform(detrend=kind, workers=1) if win_fnc is None else S.FourierTransform(win_fnc=win_fnc, detrend=kind, workers=1)
        out = ft.run(wd)
        judge(ctx, wd, out, ("kaiser", 14) if win_fnc is None else win_fnc, kind, "layout")
        ctx.check(snapshot(wd) == before, "layout-input", "windowed data changed")

    for n_levels in (1, 2, 3):
        for shape in itertools.product((1, 2, 5), repeat=n_levels):
            for sizes in ([8, 8, 8], [13, 6, 4], [5, 16, 9]):
                for n_chans in (1, 2, 3):
                    for kind in ("linear", "constant", None):
                        for win_fnc in (None, "hann"):
                            for transposed in (False, True):
                                if n_levels == 3 and (transposed or win_fnc or kind == "constant"):
                                    continue
                                ctx.case({"job": job, "wins": shape, "sizes": sizes[:n_levels], "chans": n_chans, "detrend": kind,
                                          "taper": win_fnc, "transposed": transposed},
                                         one, shape, sizes[:n_levels], n_chans, kind, win_fnc, transposed)


def job_large(job, ctx):
    """Sizes around powers of two and far beyond the small scope: nothing may depend on how many there are"""
    n_wins = [x + d for x in (64, 128, 256, 512, 1000, 1024, 2048, 4096, 10000) for d in (-1, 0, 1)] + [40000]
    shapes = [(w, 2, 8) for w in n_wins] + [(70000, 1, 4), (2, 70, 8), (3, 130, 16)]
    shapes += [(3, 2, x + d) for x in (64, 128, 256, 512, 1000, 1024, 2048) for d in (-1, 0, 1)]

    def fourier(shape, kind, dtype):
        chans = [f"C{i:03d}" for i in range(shape[1])]
        wd = windowed_data([mixed(*shape, dtype, 3), mixed(2, shape[1], 6, dtype, 5)], [128.0, 32.0], chans, offset=3)
        judge(ctx, wd, S.FourierTransform(detrend=kind, workers=1).run(wd), ("kaiser", 14), kind, "large")

    def spectra(shape, dtype):
        chans = [f"C{i:03d}" for i in range(shape[1])]
        rng = np.random.RandomState(shape[0] + shape[2])
        arr = (rng.randn(*shape) + 1j * rng.randn(*shape) + np.arange(shape[0])[:, None, None]).astype(dtype)
        return arr, spectra_data([arr], [64.0], [np.arange(shape[2]) * 0.5], chans)

    def evals(shape, at, dtype):
        arr, sd = spectra(shape, dtype)
        at = [a * shape[2] * 0.5 for a in at]
        dp = D.DecimationParameters(fs=64.0, n_levels=1, per_level=len(at), min_samples=4, eval_freqs=at, dec_factors=[1])
        got = S.EvaluationFreqs().run(dp, sd).get_level(0)
        want = interp(np.arange(shape[2]) * 0.5, arr.astype("complex128"), at)
        ctx.require(got.shape == want.shape, "large-eval-shape", f"{got.shape} expected {want.shape}")
        bad = np.abs(got - want) > (1e-5 if dtype == "complex64" else 1e-9) * (10 + np.abs(want))
        ctx.check(not bad.any(), "large-eval-values", lambda: f"first at {np.argwhere(bad)[0]}")

    def smoothed(shape, dtype):
        arr, sd = spectra(shape, dtype)
        n = shape[2]
        for proc, w in ((S.SpectraSmootherUniform(length_proportion=0.2), weights_uniform(0.2, n)),
                        (S.SpectraSmootherGaussian(sigma=2.0), weights_gauss(2.0, n))):
            want, got = smooth(arr.astype("complex128"), w, n), proc.run(sd).get_level(0)
            ctx.require(got.shape == want.shape, "large-smooth-shape", f"{got.shape} expected {want.shape}")
            bad = np.abs(got - want) > (1e-4 if dtype == "complex64" else 1e-9) * (10 + np.abs(want))
            ctx.check(not bad.any(), "large-smooth-values", lambda: f"{type(proc).__name__} first at {np.argwhere(bad)[0]}")

    if job["part"] == "fourier":
        for shape in shapes:
            for kind, dtype in (("linear", "float64"), (None, "float32"), ("constant", "int64")):
                ctx.case({"job": job, "shape": shape, "detrend": kind, "dtype": dtype}, fourier, shape, kind, dtype)
        return
    for shape in shapes:
        for dtype in ("complex64", "complex128"):
            if job["part"] == "smooth":
                if shape[0] * shape[2] < 50000:
                    ctx.case({"job": job, "shape": shape, "dtype": dtype}, smoothed, shape, dtype)
                continue
            for at in ([0.3], [0.9, 0.31, 0.07, 0.06, 0.05], [i / 90 for i in range(80, 0, -1)]):
                if len(at) < 40 or shape[0] * shape[1] < 3000:
                    ctx.case({"job": job, "shape": shape, "n": len(at), "dtype": dtype}, evals, shape, at, dtype)


def interp(freqs, data, at):
    out = np.empty(data.shape[:-1] + (len(at),), dtype="complex128")
    for j, f in enumerate(at):
        if f <= freqs[0]:
            out[..., j] = data[..., 0]
        elif f >= freqs[-1]:
            out[..., j] = data[..., -1]
        else:
            i = max(k for k in range(len(freqs)) if freqs[k] <= f)
            w = (f - freqs[i]) / (freqs[i + 1] - freqs[i])
            out[..., j] = data[..., i] * (1 - w) + data[..., i + 1] * w
    return out


def job_eval(job, ctx):
    dtype, nf = job["dtype"], job["n_freqs"]
    tol = 1e-4 if dtype == "complex64" else 1e-9
    bins = np.arange(nf)

    def one(wins, n_chans, positions, extra_levels):
        n_levels, per_level = len(wins), len(positions[0])
        fs = [64.0 / 2**i for i in range(n_levels + extra_levels)]
        arrays, freqs, evals = [], [], []
        for i, w in enumerate(wins):
            m = nf + i
            rng = np.random.RandomState(7 * i + w)
            arrays.append((rng.randn(w, n_chans, m) + 1j * rng.randn(w, n_chans, m) + 100 * np.arange(n_chans)[None, :, None]).astype(dtype))
            freqs.append(np.arange(m) * fs[i] / (2 * max(m - 1, 1)))
        for i in range(n_levels + extra_levels):
            df = (freqs[i][1] - freqs[i][0]) if i < n_levels else 1.0
            evals.append([p * df for p in positions[i]])
        sd = spectra_data(arrays, fs[:n_levels], freqs, CHANS[:n_chans])
        before = snapshot(sd)
        dp = D.DecimationParameters(
            fs=64.0, n_levels=n_levels + extra_levels, per_level=per_level, min_samples=4,
            eval_freqs=[f for e in evals for f in e], dec_factors=[2**i for i in range(n_levels + extra_levels)],
        )
        out = S.EvaluationFreqs().run(dp, sd)
        ctx.require(out.metadata.n_levels == n_levels and sorted(out.data) == list(range(n_levels)), "eval-levels", "")
        for i in range(n_levels):
            want = interp(freqs[i], arrays[i].astype("complex128"), evals[i])
            got = out.get_level(i)
            ctx.require(got.shape == want.shape, "eval-shape", f"{got.shape} expected {want.shape}")
            ctx.check(np.abs(got - want).max() <= tol * 200, "eval-values", lambda: f"level {i} at {positions[i]}: {got[0, 0]} expected {want[0, 0]}")
            lm, slm = out.metadata.levels_metadata[i], sd.metadata.levels_metadata[i]
            ctx.check(lm.n_freqs == per_level and list(lm.freqs) == list(evals[i]), "eval-freqs", f"{lm.freqs} expected {evals[i]}")
            for field in ("fs", "n_wins", "win_size", "olap_size", "index_offset"):
                ctx.check(getattr(lm, field) == getattr(slm, field), "eval-level-metadata", f"level {i} {field}")
        metadata_kept(ctx, sd.metadata, out.metadata, "eval")
        ctx.check(snapshot(sd) == before, "eval-input", "spectra data changed")

    where = sorted(set([0.0, 0.25, 0.5, 1.0, nf - 1.5, nf - 1.0, nf - 0.5, nf + 3.0, -0.5, (nf - 1) / 3]))
    for wins in ((1,), (3,), (2, 1), (1, 4, 2)):
        for n_chans in (1, 2, 3):
            for extra in (0, 1):
                for p in where:
                    ctx.case({"job": job, "wins": wins, "chans": n_chans, "positions": [p]}, one, wins, n_chans,
                             [[p]] * (len(wins) + extra), extra)
                for p in itertools.combinations(where, 2) if n_chans == 2 else ():
                    for q in (p, p[::-1]):
                        other = [q, q[::-1]] * 3
                        ctx.case({"job": job, "wins": wins, "chans": n_chans, "positions": q}, one, wins, n_chans, other, extra)
                p = tuple(where[::-1])
                ctx.case({"job": job, "wins": wins, "chans": n_chans, "positions": p}, one, wins, n_chans, [p] * 4, extra)


def smooth(x, weights, n):
    """weights: offset -> weight, reflected at the ends"""
    kernel = np.zeros((n, n))
    to = np.arange(n)
    for o, w in weights.items():
        source = (to + o) % (2 * n)
        np.add.at(kernel, (np.where(source < n, source, 2 * n - 1 - source), to), w)
    return x @ kernel


def weights_uniform(prop, n):
    length = int(prop * n)
    length = length + 1 if length % 2 == 0 else length
    return {o: 1.0 / length for o in range(-(length // 2), length // 2 + 1)}


def weights_gauss(sigma, n):
    r = int(4 * sigma + 0.5)
    w = {o: np.exp(-0.5 * (o / sigma) ** 2) for o in range(-r, r + 1)}
    t = sum(w.values())
    return {o: v / t for o, v in w.items()}


def job_smooth(job, ctx):
    nf = job["n_freqs"]

    def one(kind, value, shape, n_chans, dtype):
        arrays = []
        for i, w in enumerate(shape):
            rng = np.random.RandomState(w + 5 * i)
            m = nf + 2 * i
            arr = rng.randn(w, n_chans, m) + 1j * rng.randn(w, n_chans, m)
            arr[0, 0] = 0
            arr[0, 0, m // 2] = 50 - 20j
            arrays.append(arr.astype(dtype))
        freqs = [np.arange(a.shape[2]) * 1.5 for a in arrays]
        fs = [128.0 / 2**i for i in range(len(shape))]
        sd = spectra_data(arrays, fs, freqs, CHANS[:n_chans])
        before = snapshot(sd)
        proc = S.SpectraSmootherUniform(length_proportion=value) if kind == "uniform" else S.SpectraSmootherGaussian(sigma=value)
        out = proc.run(sd)
        for i, arr in enumerate(arrays):
            n = arr.shape[2]
            w = (weights_uniform if kind == "uniform" else weights_gauss)(value, n)
            want = smooth(arr.astype("complex128"), w, n)
            got = out.get_level(i)
            ctx.require(got.shape == want.shape, "smooth-shape", f"{got.shape}")
            ctx.check(np.abs(got - want).max() <= (1e-4 if dtype == "complex64" else 1e-9) * 50, "smooth-values-" + kind,
                      lambda: f"level {i}: {got[0, 0]} expected {want[0, 0]}")
        ctx.check(out.metadata.levels_metadata == sd.metadata.levels_metadata, "smooth-levels-metadata", "")
        metadata_kept(ctx, sd.metadata, out.metadata, "smooth")
        ctx.check(snapshot(sd) == before, "smooth-input", "spectra data changed")

    for shape in ((1,), (3,), (2, 1), (1, 2, 3)):
        for n_chans in (1, 2, 3):
            for dtype in ("complex64", "complex128"):
                for value in (0.01, 0.1, 0.2, 0.34, 0.5, 0.8, 1.0):
                    ctx.case({"job": job, "uniform": value, "shape": shape, "chans": n_chans, "dtype": dtype},
                             one, "uniform", value, shape, n_chans, dtype)
                for value in (0.3, 0.5, 1.0, 1.7, 3.0, 5.0):
                    if 4 * value > 6 * nf:
                        continue
                    ctx.case({"job": job, "gaussian": value, "shape": shape, "chans": n_chans, "dtype": dtype},
                             one, "gaussian", value, shape, n_chans, dtype)


def job_chain(job, ctx):
    """Transform, smooth and evaluate composed, windows independent of their neighbours"""

    def one(wins, n_chans, pick):
        sizes = [16, 9, 12][: len(wins)]
        fs = [128.0, 32.0, 16.0][: len(wins)]
        arrays = [mixed(w, n_chans, n, "float64", w + n) for w, n in zip(wins, sizes)]
        dp = D.DecimationParameters(fs=128.0, n_levels=len(wins), per_level=2, min_samples=4,
                                    eval_freqs=[f / d for f in fs for d in (4.3, 7.0)], dec_factors=[int(128 / f) for f in fs])

        def chain(arrays, chans):
            out = S.FourierTransform(workers=1).run(windowed_data(arrays, fs, chans))
            return S.EvaluationFreqs().run(dp, S.SpectraSmootherUniform(length_proportion=0.3).run(out))

        full = chain(arrays, CHANS[:n_chans])
        part = chain([np.array(a[[p % len(a)]][:, ::-1]) for a, p in zip(arrays, pick)], CHANS[:n_chans][::-1])
        for i, p in enumerate(pick):
            ctx.check(np.allclose(part.get_level(i)[0], full.get_level(i)[p % wins[i]][::-1], rtol=1e-9, atol=1e-9), "chain-independence",
                      f"level {i} window {p}")
        # linearity
        second = [mixed(a.shape[0], n_chans, a.shape[2], "float64", 91) for a in arrays]
        both = chain([2.5 * a - 3 * b for a, b in zip(arrays, second)], CHANS[:n_chans])
        other = chain(second, CHANS[:n_chans])
        for i in range(len(wins)):
            want = 2.5 * full.get_level(i) - 3 * other.get_level(i)
            ctx.check(np.allclose(both.get_level(i), want, rtol=1e-8, atol=1e-6), "chain-linear", f"level {i}")

    for wins in itertools.chain(itertools.product((1, 2, 4), repeat=1), itertools.product((1, 2, 4), repeat=2), itertools.product((1, 3), repeat=3)):
        for n_chans in (1, 2, 3):
            for pick in itertools.product(range(max(wins)), repeat=len(wins)):
                ctx.case({"job": job, "wins": wins, "chans": n_chans, "pick": pick}, one, wins, n_chans, pick)
