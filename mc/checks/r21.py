"""R21 the whole processing flow recovers the transfer function"""
import itertools
import json
import warnings
from fractions import Fraction

import numpy as np

from build import T0, time_at, time_data
from proj import configuration, signal, write_measurement

import resistics.calibrate as C
import resistics.decimate as D
import resistics.letsgo as L
import resistics.project as P
import resistics.regression as R
import resistics.spectra as S
import resistics.time as T
import resistics.window as W
from resistics.config import get_default_configuration
from resistics.transfunc import ImpedanceTensor, Tipper, TransferFunction

ID = "R21"
LEVEL = "exploration"
RULE = (
    "every configuration out of: time processors (none, each kind, pairs) x decimation x windowing x taper x spectra "
    "processors x solver x transfer function, for recordings at sampling frequencies from 1/100 Hz to 4096 Hz, through quick_tf and "
    "through the project flow; every assignment of sites to output, input and cross channels with every site having its own "
    "inputs; every state of the calibration folder; recordings in one to four pieces, with gaps and overlaps; time offsets and "
    "channel scalings; one-sided delays; expected: the mixing matrix itself, an independent complex least squares of the stored "
    "spectra, or the composition of the single steps; non-trivial: distinct (configuration, layout)"
)
ASSUMPTIONS = [
    "outputs are an instantaneous combination of the inputs, for which every linear step is exact up to rounding",
    "delayed outputs: delays of at most 1/32 of a window and an error of at most 8 percent",
    "scikit-learn replaced by exact least squares",
]
K1 = np.array([[2.0, -1.0], [0.5, 3.0], [0.25, -0.125]])
K2 = np.array([[-4.0, 1.5], [7.0, 0.75], [-0.5, 2.0]])
CHANS = ["Hx", "Hy", "Ex", "Ey", "Hz"]
OUT = {"Ex": 0, "Ey": 1, "Hz": 2}
IN = {"Hx": 0, "Hy": 1}


def BOUNDS(tier):
    return {"samples": 900, "levels": 3, "sites": 3, "pieces": 4}


def jobs(tier):
    for i in range(len(PROCESSORS)):
        yield {"kind": "processors", "first": i}
    for i in range(len(DECS)):
        yield {"kind": "setups", "dec": i}
    yield {"kind": "rates"}
    for i in range(len(LAYOUTS)):
        yield {"kind": "pieces", "layout": i}
    for k in range(4):
        yield {"kind": "sites", "part": k}
    yield {"kind": "calibration"}
    yield {"kind": "steps"}
    yield {"kind": "physics"}
    yield {"kind": "delay"}
    yield {"kind": "mixed"}
    yield {"kind": "unconfigured"}
    for i in range(len(PROCESSORS) + len(GAINS)):
        yield {"kind": "integers", "processor": i}


def run_job(job, ctx):
    warnings.simplefilter("ignore")
    globals()["job_" + job["kind"]](job, ctx)


def inputs(key, start, n):
    """Samples start .. start + n - 1 of the two input channels of a site"""
    return [signal(key, start + n)[start:], signal(key + 5, start + n)[start:]]


def recording(fs, n, K=K1, key=1, start=0, chans=CHANS, t0=T0, extra=None, dtype=float, shift=Fraction(0)):
    """Outputs are K times the inputs, plus extra (name -> array)"""
    h = inputs(key, start, n)
    rows = {"Hx": h[0], "Hy": h[1]}
    for name, k in OUT.items():
        rows[name] = K[k, 0] * h[0] + K[k, 1] * h[1]
    for name, x in (extra or {}).items():
        rows[name] = rows[name] + x
    data = np.array([rows[c] for c in chans], dtype=dtype)
    return time_data(fs, data, chans, t0=time_at(t0, Fraction(start) / Fraction(fs) + shift))


def want_tensor(tf, K):
    return np.array([[K[OUT[o], IN[i]] for i in tf.in_chans] for o in tf.out_chans])


def expect(ctx, sol, want, freqs, key, tol=1e-6):
    ctx.require(sol.n_freqs == len(freqs) and np.allclose(sol.freqs, freqs, rtol=1e-9), key + "-freqs", f"{sol.freqs} expected {list(freqs)}")
    for idx in range(sol.n_freqs):
        got = sol.get_tensor(idx)
        w = want(idx) if callable(want) else want
        err = np.max(np.absolute(got - w)) if got.shape == w.shape else np.inf
        ctx.check(err <= tol * np.max(np.absolute(w)), key + "-tensor", lambda: f"{freqs[idx]} Hz: {got.tolist()} expected {w.tolist()}")


def new_project(base, ref=None):
    root = base / "proj"
    L.new(root, {"ref_time": (ref or T0).isoformat()[:26]})
    return root


def evaluate(root, conf, sites=None):
    env = L.load(root, conf)
    for site in env.proj:
        if sites is not None and site.name not in sites:
            continue
        for meas in site:
            L.process_time_to_evals(env, site.name, meas.name)
    return env


def both_flows(ctx, fs, td, conf, want, freqs, tol=1e-6, agree=True):
    """quick_tf and the project flow on one recording"""
    base = ctx.scratch()
    root = new_project(base)
    path = write_measurement(root, "site", "meas", td)
    ref = td.data.copy()
    quick = L.quick_tf(path, conf)
    expect(ctx, quick, want, freqs, "quick", tol)
    env = evaluate(root, conf)
    sol = L.process_evals_to_tf(env, fs, "site")
    expect(ctx, sol, want, freqs[: sol.n_freqs], "project", tol)
    ctx.check(sol.n_freqs == quick.n_freqs and np.allclose(sol.freqs, quick.freqs, rtol=1e-12), "flows-agree", f"{sol.freqs} and {quick.freqs}")
    if agree:
        for idx in range(sol.n_freqs):
            ctx.check(np.allclose(sol.get_tensor(idx), quick.get_tensor(idx), rtol=1e-6, atol=1e-6 * np.max(np.absolute(want))), "flows-agree", f"frequency {idx}")
    back = L.get_solution(env, "site", conf.name, fs, conf.tf.name, conf.tf.variation)
    expect(ctx, back, want, freqs[: sol.n_freqs], "stored", tol)
    ctx.check(np.array_equal(td.data, ref, equal_nan=True), "input-changed", "")
    ctx.drop(base)


def default_freqs(fs, n_levels, per_level):
    """The documented choice: fs/4 downwards, by powers of the square root of two"""
    return [fs / 4 / 2 ** (k / 2) for k in range(n_levels * per_level)]


def levels_present(conf, fs, n):
    """Number of levels with windows, found by running the single steps on zeros"""
    td = time_data(fs, np.zeros((1, n)), ["Hx"])
    dp = conf.dec_setup.run(fs)
    dec = conf.decimator.run(dp, td)
    wp = conf.win_setup.run(dec.metadata.n_levels, dec.metadata.fs)
    win = conf.windower.run(T0, wp, dec)
    return dp, win.metadata.n_levels


def expected_freqs(conf, fs, n):
    dp, levels = levels_present(conf, fs, n)
    return [f for lvl in range(levels) for f in dp.get_eval_freqs(lvl)]


# name, processors, factor by which the sampling frequency changes, effect on the tensor
PROCESSORS = [
    ("none", lambda fs: [], 1, None),
    ("default", lambda fs: [T.InterpolateNans(), T.RemoveMean()], 1, None),
    ("lowpass", lambda fs: [T.LowPass(cutoff=fs * 0.45)], 1, None),
    ("highpass", lambda fs: [T.HighPass(cutoff=fs * 0.005, order=2)], 1, None),
    ("notch", lambda fs: [T.Notch(notch=fs * 0.4)], 1, None),
    ("add", lambda fs: [T.Add(add={"Ex": 100.0, "Hx": -3.0}), T.RemoveMean()], 1, None),
    ("multiply", lambda fs: [T.Multiply(multiplier={"Ex": 10.0})], 1, ("Ex", 10.0)),
    ("multiply-in", lambda fs: [T.Multiply(multiplier={"Hy": 4.0})], 1, ("Hy", 0.25)),
    ("multiply-all", lambda fs: [T.Multiply(multiplier=-7.0)], 1, None),
    ("decimate", lambda fs: [T.Decimate(factor=2)], Fraction(1, 2), None),
    ("decimate-6", lambda fs: [T.Decimate(factor=6)], Fraction(1, 6), None),
    ("resample", lambda fs: [T.Resample(new_fs=fs * 3 / 4)], Fraction(3, 4), None),
    ("shift", lambda fs: [T.ShiftTimestamps(shift=0.5 / fs)], 1, None),
    ("subsection", lambda fs: [T.Subsection(from_time=time_at(T0, 60 / Fraction(fs)).isoformat()[:26], to_time=time_at(T0, 800 / Fraction(fs)).isoformat()[:26])], 1, None),
]
DECS = [
    dict(n_levels=1, per_level=1, min_samples=64), dict(n_levels=2, per_level=2, min_samples=64), dict(n_levels=3, per_level=3, min_samples=64),
    dict(n_levels=3, per_level=1, min_samples=64, div_factor=4), dict(n_levels=8, per_level=5, min_samples=64), dict(n_levels=2, per_level=2, min_samples=600),
]
WINS = [
    dict(min_size=32, min_olap=8, min_n_wins=2), dict(min_size=64, min_olap=16, min_n_wins=2), dict(min_size=32, min_olap=1, min_n_wins=3, olap_proportion=0.0),
    dict(min_size=16, min_olap=4, win_factor=8, olap_proportion=0.5, min_n_wins=4),
]
FOURIERS = [dict(), dict(win_fnc="hann", detrend="constant"), dict(win_fnc="boxcar", detrend=None)]
SMOOTH = [[], [S.SpectraSmootherUniform(length_proportion=0.1)], [S.SpectraSmootherGaussian(sigma=1.5)],
          [S.SpectraSmootherGaussian(sigma=1), S.SpectraSmootherUniform(length_proportion=0.05)]]
SOLVERS = [
    lambda: R.SolverScikitOLS(n_jobs=1), lambda: R.SolverScikitHuber(), lambda: R.SolverScikitTheilSen(n_jobs=1), lambda: R.SolverScikitRANSAC(),
]
TFS = [
    ImpedanceTensor(), Tipper(), ImpedanceTensor(cross_chans=["Hx", "Hy", "Hz"], variation="three"),
    TransferFunction(variation="odd", out_chans=["Hz", "Ey"], in_chans=["Hy", "Hx"], cross_chans=["Ex", "Ey"]),
]


def scaled(tf, K, effect):
    want = want_tensor(tf, K)
    if effect is not None:
        for o, oc in enumerate(tf.out_chans):
            for i, ic in enumerate(tf.in_chans):
                want[o, i] *= effect[1] if effect[0] in (oc, ic) else 1.0
    return want


def effect_pair(a, b):
    return [x for x in (a, b) if x is not None]


def job_processors(job, ctx):
    """Time processors, alone and in pairs, in both flows"""
    fs, n = 64.0, 900
    a = PROCESSORS[job["first"]]

    def one(b, tf, nans):
        procs = a[1](fs) + (b[1](fs * float(a[2])) if b is not None else [])
        factor = Fraction(a[2]) * Fraction(b[2] if b is not None else 1)
        conf = configuration("c", tf=tf, time_processors=procs)
        td = recording(fs, n)
        if nans:
            td.data[:, 100:103] = np.nan
            td.data[:, 417] = np.nan
        want = want_tensor(tf, K1)
        for effect in effect_pair(a[3], b[3] if b is not None else None):
            want = want * scaled(tf, np.ones_like(K1), effect)
        out = td
        for p in procs:
            out = p.run(out)
        freqs = expected_freqs(conf, out.metadata.fs, out.metadata.n_samples)
        ctx.check(abs(out.metadata.fs / (fs * float(factor)) - 1) < 1e-9, "processed-fs", f"{out.metadata.fs}")
        # shifted windows: the quick flow refers windows to the first sample of the recording before processing
        both_flows(ctx, fs, td, conf, want, freqs, tol=1e-5)

    others = [None] + [PROCESSORS[i] for i in ((1, 6, 9) if ctx.tier == "quick" else range(len(PROCESSORS)))]
    for k, b in enumerate(others):
        if b is not None and "subsection" in (b[0],) and a[0] in ("subsection",):
            continue
        for j, tf in enumerate(TFS):
            if ctx.tier == "quick" and (k + j) % 2:
                continue
            if b is not None and b[0] == "subsection" and a[2] != 1:
                continue
            ctx.case({"job": job, "processors": [a[0], b[0] if b else None], "tf": j}, one, b, tf, False)
    if a[0] == "default":
        for j, tf in enumerate(TFS):
            ctx.case({"job": job, "processors": [a[0]], "tf": j, "nans": True}, one, None, tf, True)


KI = np.array([[2.0, -3.0], [1.0, 4.0], [-1.0, 2.0]])
GAINS = [
    ("gain", lambda fs: [T.Multiply(multiplier={"Ex": 0.5, "Hz": 0.25})], {"Ex": 0.5, "Hz": 0.25}),
    ("units", lambda fs: [T.Multiply(multiplier={"Hx": 0.001, "Hy": 0.002}), T.Add(add={"Ex": 0.25})], {"Hx": 0.001, "Hy": 0.002}),
    ("units-filter", lambda fs: [T.Multiply(multiplier=0.01), T.LowPass(cutoff=fs * 0.4, order=4)], {}),
]


def job_integers(job, ctx):
    """Recordings of counts"""
    fs, n = 64.0, 900
    name, procs, gains = (PROCESSORS + GAINS)[job["processor"]][:3]
    effect = None
    if not isinstance(gains, dict):
        gains, effect = {}, PROCESSORS[job["processor"]][3]

    def one(dtype, counts, tf):
        conf = configuration("c", tf=tf, time_processors=procs(fs))
        h = np.round(np.array(inputs(1, 0, n)) * counts)
        rows = {"Hx": h[0], "Hy": h[1], **{c: KI[k] @ h for c, k in OUT.items()}}
        td = time_data(fs, np.array([rows[c] for c in CHANS]).astype(dtype), CHANS)
        ctx.require(np.array_equal(td.data, np.array([rows[c] for c in CHANS])), "harness-integers", "recording out of range")
        want = scaled(tf, KI, effect)
        for o, oc in enumerate(tf.out_chans):
            for i, ic in enumerate(tf.in_chans):
                want[o, i] *= gains.get(oc, 1) / gains.get(ic, 1)
        out = td
        for p in procs(fs):
            out = p.run(out)
        both_flows(ctx, fs, td, conf, want, expected_freqs(conf, out.metadata.fs, out.metadata.n_samples), tol=1e-5 if dtype != "int16" else 1e-3, agree=dtype != "int16")

    for j, tf in enumerate(TFS):
        for dtype, counts in (("int32", 3), ("int32", 1000), ("int16", 300), ("int64", 50)):
            if ctx.tier == "quick" and (j + len(name) + counts) % 2:
                continue
            ctx.case({"job": job, "processor": name, "dtype": dtype, "counts": counts, "tf": j}, one, dtype, counts, tf)


def job_setups(job, ctx):
    """Decimation, windows, tapers, smoothing, solvers"""
    fs, n = 64.0, 900
    dec = DECS[job["dec"]]
    k = 0
    for win, fourier, smooth, solver, target in itertools.product(WINS, FOURIERS, SMOOTH, SOLVERS, (None, 6)):
        k += 1
        if ctx.tier == "quick" and k % 17:
            continue
        tf = TFS[k % 4]

        def one():
            conf = configuration("c", tf=tf, solver=solver(), dec_setup=D.DecimationSetup(**dec), win_setup=W.WindowSetup(**win),
                                 fourier=S.FourierTransform(workers=1, **fourier), spectra_processors=smooth,
                                 windower=W.Windower() if target is None else W.WindowerTarget(target=target, min_size=16))
            freqs = expected_freqs(conf, fs, n)
            both_flows(ctx, fs, recording(fs, n), conf, want_tensor(tf, K1), freqs, tol=1e-5, agree=target is None)

        ctx.case({"job": job, "win": str(win), "fourier": str(fourier), "smooth": len(smooth) and smooth[0].name, "solver": solver().name, "target": target, "tf": k % 4}, one)
    # user chosen evaluation frequencies
    for evals in ([20.0, 13.0, 9.0, 4.0], [16.0, 16.0, 5.5, 3.0], [31.0, 1.5]):
        def chosen():
            conf = configuration("c", dec_setup=D.DecimationSetup(n_levels=dec["n_levels"], per_level=max(1, len(evals) // dec["n_levels"]), min_samples=64,
                                                                  eval_freqs=evals[: dec["n_levels"] * max(1, len(evals) // dec["n_levels"])]))
            freqs = expected_freqs(conf, fs, n)
            ctx.check(all(f in evals for f in freqs), "chosen-freqs", f"{freqs}")
            both_flows(ctx, fs, recording(fs, n), conf, want_tensor(conf.tf, K1), freqs, tol=1e-5)

        if dec["n_levels"] <= len(evals):
            ctx.case({"job": job, "evals": evals}, chosen)


def job_rates(job, ctx):
    """Sampling frequencies, data types, first times"""
    for fs in (0.01, 0.1, 0.75, 1.0, 3.0, 10.0, 128.0, 500.0, 4096.0):
        for dtype, tol in ((np.float64, 1e-6), (np.float32, 1e-3)):
            for chans in (CHANS, CHANS[::-1]):
                if fs > 1000 and dtype == np.float32:
                    continue

                def one():
                    conf = configuration("c")
                    n = max(700, int(fs))
                    td = recording(fs, n, chans=chans, dtype=dtype)
                    freqs = expected_freqs(conf, fs, n)
                    both_flows(ctx, fs, td, conf, want_tensor(conf.tf, K1), freqs, tol=tol)
                    ctx.check(np.allclose(freqs, default_freqs(fs, 2, 2)[: len(freqs)], rtol=1e-9), "default-freqs", f"{freqs}")

                ctx.case({"job": job, "fs": fs, "dtype": np.dtype(dtype).name, "order": chans[0]}, one)


# pieces: (start sample, number of samples)
LAYOUTS = [
    [(0, 900)], [(0, 450), (450, 450)], [(450, 450), (0, 450)], [(0, 300), (500, 400)], [(0, 600), (300, 600)], [(13, 301), (333, 299), (700, 201)],
    [(0, 900), (200, 300)], [(7, 240), (247, 240), (487, 240), (727, 173)], [(5000, 400), (0, 400)],
]


def store_lsq(root, conf, tf, sites, names, fs, cross_noise=False):
    """Independent estimate from the stored spectra: windows present at every site, complex least squares"""
    wins = {}
    reads = {}
    for site in set(names):
        per = {}
        for meas in sites[site]:
            data = S.SpectraDataReader().run(P.get_meas_evals_path(root, site, meas, conf.name))
            for lvl in range(data.metadata.n_levels):
                md = data.metadata.levels_metadata[lvl]
                for w in range(md.n_wins):
                    per.setdefault(lvl, {}).setdefault(md.index_offset + w, (data, w))
        reads[site] = per
    n_levels = min(max(p) + 1 for p in reads.values())
    out = []
    for lvl in range(n_levels):
        shared = sorted(set.intersection(*[set(reads[s].get(lvl, {})) for s in set(names)]))
        first = next(iter(reads[names[0]][lvl].values()))[0]
        for f, freq in enumerate(first.metadata.levels_metadata[lvl].freqs):
            def rows(site, chans):
                return np.array([[reads[site][lvl][w][0].data[lvl][reads[site][lvl][w][1], reads[site][lvl][w][0].metadata.chans.index(c), f] for c in chans] for w in shared])

            o, i, c = rows(names[0], tf.out_chans), rows(names[1], tf.in_chans), np.conj(rows(names[2], tf.cross_chans))
            a = (i[:, None, :] * c[:, :, None]).reshape(-1, tf.n_in)
            z = np.array([np.linalg.solve(np.conj(a.T) @ a, np.conj(a.T) @ (o[:, k, None] * c).reshape(-1)) for k in range(tf.n_out)])
            out.append((freq, z, len(shared)))
    return out


def job_pieces(job, ctx):
    """Measurements of one site recorded in pieces"""
    fs = 64.0
    for shift in (Fraction(0), Fraction(1, 3), Fraction(-5)):
        for tf in TFS[:2]:
            for noise in (False, True):
                def one():
                    base = ctx.scratch()
                    root = new_project(base)
                    names = []
                    for k, (start, n) in enumerate(LAYOUTS[job["layout"]]):
                        extra = {"Ex": 3 * signal(11 + k, n), "Hz": 2 * signal(12 + k, n)} if noise else None
                        names.append("m%d" % k)
                        write_measurement(root, "site", names[-1], recording(fs, n, start=start, shift=Fraction(int(shift * 64), 64) if shift != Fraction(1, 3) else shift, extra=extra))
                    if shift < 0:
                        # windows before the reference time are refused
                        ctx.refuses(lambda: evaluate(root, configuration("c", tf=tf)), "before-reference", "recording before the reference time processed")
                        ctx.drop(base)
                        return
                    conf = configuration("c", tf=tf)
                    env = evaluate(root, conf)
                    sol = L.process_evals_to_tf(env, fs, "site")
                    ref = store_lsq(root, conf, tf, {"site": names}, ("site",) * 3, fs)
                    expect(ctx, sol, lambda i: ref[i][1], [r[0] for r in ref], "pieces-lsq", 1e-6)
                    if not noise:
                        expect(ctx, sol, want_tensor(tf, K1), [r[0] for r in ref], "pieces", 1e-6)
                    ctx.check(sorted(sol.contributors["out_data"].measurements) == sorted(set(sol.contributors["out_data"].measurements) & set(names)), "pieces-contributors", "")
                    if all(a[0] + a[1] <= b[0] for a, b in itertools.combinations(sorted(LAYOUTS[job["layout"]]), 2)):
                        ctx.check(sorted(sol.contributors["out_data"].measurements) == sorted(names), "pieces-contributors", f"{sol.contributors['out_data'].measurements}")
                    ctx.outcome(tuple(r[2] for r in ref))
                    ctx.drop(base)

                ctx.case({"job": job, "shift": str(shift), "tf": tf.name, "noise": noise}, one)


def job_sites(job, ctx):
    """Every assignment of three sites to the roles; each site has inputs and outputs of its own"""
    fs, n = 64.0, 700
    confs = [configuration("c"), configuration("c", tf=TFS[3]), configuration("c", tf=ImpedanceTensor(cross_chans=["Ex", "Ey"])), configuration("c", tf=Tipper())]
    conf = confs[job["part"]]
    tf = conf.tf
    base = ctx.scratch()
    root = new_project(base)
    starts = {"s1": 0, "s2": 40, "s3": 123}
    own = {"s1": 1, "s2": 2, "s3": 3}
    for s in starts:
        extra = {c: 0.5 * signal(own[s] * 3 + k, n) for k, c in enumerate(CHANS)}
        write_measurement(root, s, "meas", recording(fs, n, K={"s1": K1, "s2": K2, "s3": K1 + K2}[s], key=1, start=starts[s], extra=extra))
    env = evaluate(root, conf)

    def one(out, inn, cross):
        sol = L.process_evals_to_tf(env, fs, out, inn, cross, postfix=f"{out}{inn}{cross}")
        names = (out, inn or out, cross or inn or out)
        ref = store_lsq(root, conf, tf, {s: ["meas"] for s in starts}, names, fs)
        expect(ctx, sol, lambda i: ref[i][1], [r[0] for r in ref], "sites", 1e-6)
        ctx.check(tuple(sol.contributors[k].site_name for k in ("out_data", "in_data", "cross_data")) == names, "sites-contributors", "")

    for out in starts:
        for inn in (None, "s1", "s2", "s3"):
            for cross in (None, "s1", "s2", "s3"):
                ctx.case({"job": job, "roles": [out, inn, cross]}, one, out, inn, cross)
    ctx.drop(base)

    # outputs of one site follow the inputs of another
    def intersite(out, inn):
        base = ctx.scratch()
        root = new_project(base)
        follow = recording(fs, n, key=4)
        alone = recording(fs, n, K=K2, key=2)
        idx = [CHANS.index(c) for c in ("Hx", "Hy")]
        follow.data[idx] = alone.data[idx] * 0 + np.array(inputs(8, 0, n))
        write_measurement(root, out, "m", follow)
        write_measurement(root, inn, "m", recording(fs, n, K=K2, key=4))
        env = evaluate(root, conf)
        sol = L.process_evals_to_tf(env, fs, out, inn)
        ctx.check(sol.n_freqs >= 2, "intersite", "")
        if not set(tf.cross_chans) & set(OUT):
            expect(ctx, sol, want_tensor(tf, K1), sol.freqs, "intersite", 1e-6)
        else:
            expect(ctx, sol, want_tensor(tf, K1), sol.freqs, "intersite", 1e-5)
        ctx.drop(base)

    for out, inn in (("a", "b"), ("b", "a")):
        ctx.case({"job": job, "intersite": [out, inn]}, intersite, out, inn)


def job_calibration(job, ctx):
    """Responses given by files are removed from the right channels"""
    fs, n = 64.0, 700
    mags = {"Hx": (2.0, 0.0), "Hy": (5.0, np.pi), "Ex": (0.25, 0.0), "Ey": (3.0, np.pi / 2), "Hz": (7.0, 0.0)}

    def one(with_file, flow, tf, chans):
        base = ctx.scratch()
        root = new_project(base)
        td = recording(fs, n)
        for k, c in enumerate(CHANS):
            td.metadata.chans_metadata[c].sensor = "S" + c
            td.metadata.chans_metadata[c].serial = str(k)
        path = write_measurement(root, "site", "meas", td)
        cal = root / "calibrate" if flow == "project" else base / "cal"
        cal.mkdir(exist_ok=True)
        for c in with_file:
            (cal / f"IC_S{c}.json").write_text(json.dumps({"sensor": "S" + c, "serial": "x", "frequency": [1e-3, 1.0, 1e3],
                                                            "magnitude": [mags[c][0]] * 3, "phase": [mags[c][1]] * 3}))
        conf = configuration("c", tf=tf, sensor_calibrator=C.SensorCalibrator(chans=chans, readers=[C.SensorCalibrationTXT(), C.SensorCalibrationJSON()]))
        applied = [c for c in with_file if chans is None or c in chans]
        if flow == "project":
            sol = L.process_evals_to_tf(evaluate(root, conf), fs, "site")
        elif flow == "quick":
            sol = L.quick_tf(path, conf, calibration_path=cal)
        else:
            sol = L.quick_tf(path, conf)
            applied = []
        resp = {c: (mags[c][0] * np.exp(1j * mags[c][1]) if c in applied else 1.0) for c in CHANS}
        want = np.array([[K1[OUT[o], IN[i]] * resp[i] / resp[o] for i in tf.in_chans] for o in tf.out_chans])
        expect(ctx, sol, want, expected_freqs(conf, fs, n), "calibrated-" + flow, 1e-6)
        ctx.drop(base)

    def curved(with_file, flow, tf, dec):
        """Responses that change from one evaluation frequency to the next, with a sample at each of them"""
        base = ctx.scratch()
        root = new_project(base)
        td = recording(fs, n)
        for k, c in enumerate(CHANS):
            td.metadata.chans_metadata[c].sensor = "S" + c
        path = write_measurement(root, "site", "meas", td)
        conf = configuration("c", tf=tf, dec_setup=D.DecimationSetup(min_samples=64, **dec))
        freqs = expected_freqs(conf, fs, n)
        cal = root / "calibrate" if flow == "project" else base / "cal"
        cal.mkdir(exist_ok=True)
        knots = [1e-3] + sorted(freqs) + [1e3]
        resp = {c: np.ones(len(knots), dtype=complex) for c in CHANS}
        for k, c in enumerate(with_file):
            mag = [1.0 + (3 * i * (k + 2) + k) % 11 for i in range(len(knots))]
            phs = [0.3 * ((i * (k + 3)) % 5) - 0.6 for i in range(len(knots))]
            resp[c] = np.array(mag) * np.exp(1j * np.array(phs))
            (cal / f"IC_S{c}.json").write_text(json.dumps({"sensor": "S" + c, "serial": "x", "frequency": knots, "magnitude": mag, "phase": phs}))
        sol = L.process_evals_to_tf(evaluate(root, conf), fs, "site") if flow == "project" else L.quick_tf(path, conf, calibration_path=cal)

        def want(idx):
            at = knots.index(freqs[idx])
            return np.array([[K1[OUT[o], IN[i]] * resp[i][at] / resp[o][at] for i in tf.in_chans] for o in tf.out_chans])

        expect(ctx, sol, want, freqs, "calibrated-curve-" + flow, 1e-6)
        ctx.drop(base)

    for with_file in (["Hx"], ["Ex", "Hz"], ["Hx", "Hy"], CHANS):
        for flow in ("project", "quick"):
            for tf in TFS:
                for dec in (dict(n_levels=2, per_level=2), dict(n_levels=3, per_level=4)):
                    ctx.case({"job": job, "curves": with_file, "flow": flow, "tf": tf.name, "variation": tf.variation, "dec": str(dec)}, curved, with_file, flow, tf, dec)
    sets = [x for r in (0, 1, 2, 5) for x in itertools.combinations(CHANS, r)]
    for k, with_file in enumerate(sets):
        for flow in ("project", "quick", "without"):
            for chans in (None, ["Hx", "Ey"], []):
                if ctx.tier == "quick" and chans is not None and k % 4:
                    continue
                tf = TFS[k % 2 if not k % 3 else 3]
                ctx.case({"job": job, "files": with_file, "flow": flow, "chans": chans, "tf": tf.name}, one, with_file, flow, tf, chans)


def same_spectra(ctx, a, b, key):
    ctx.require(sorted(a.data) == sorted(b.data) and a.metadata.chans == b.metadata.chans, key, "levels or channels differ")
    for lvl in a.data:
        ma, mb = a.metadata.levels_metadata[lvl], b.metadata.levels_metadata[lvl]
        ctx.check(ma == mb, key + "-metadata", f"{ma} and {mb}")
        ctx.check(a.data[lvl].shape == b.data[lvl].shape and np.allclose(a.data[lvl], b.data[lvl], rtol=1e-9, atol=1e-9 * np.max(np.absolute(b.data[lvl]))), key + "-values", f"level {lvl}")


def job_steps(job, ctx):
    """The flows are the composition of their steps"""
    def one(fs, n, procs, dec, win, smooth):
        base = ctx.scratch()
        root = new_project(base)
        td = recording(fs, n, start=3)
        path = write_measurement(root, "site", "meas", td)
        conf = configuration("c", time_processors=procs, dec_setup=D.DecimationSetup(**dec), win_setup=W.WindowSetup(**win), spectra_processors=smooth)
        read = L.quick_read(path, conf)
        ctx.check(np.array_equal(read.data, td.data) and read.metadata.first_time == td.metadata.first_time, "quick_read", "")

        def compose(ref):
            out = T.TimeReaderNumpy().run(path)
            for p in procs:
                out = p.run(out)
            dp = conf.dec_setup.run(out.metadata.fs)
            decd = conf.decimator.run(dp, out)
            wp = conf.win_setup.run(decd.metadata.n_levels, decd.metadata.fs)
            return dp, conf.fourier.run(conf.windower.run(ref, wp, decd))

        dp, spec = compose(td.metadata.first_time)
        same_spectra(ctx, L.quick_spectra(path, conf), spec, "quick_spectra")
        env = evaluate(root, conf)
        dp, spec = compose(env.proj.metadata.ref_time)
        for p in smooth:
            spec = p.run(spec)
        evals = conf.evals.run(dp, spec)
        same_spectra(ctx, S.SpectraDataReader().run(P.get_meas_evals_path(root, "site", "meas", "c")), evals, "evals")
        # process_time is the read part after the processors
        p = Fraction(1) / Fraction(fs)
        for f, t in ((None, None), (50, 400), (0, 100), (3, None), (None, 300)):
            args = {}
            if f is not None:
                args["from_time"] = time_at(td.metadata.first_time, f * p).isoformat()[:26]
            if t is not None:
                args["to_time"] = time_at(td.metadata.first_time, t * p).isoformat()[:26]
            L.process_time(env, "site", "meas", "out", "m_%s_%s" % (f, t), **args)
            got = T.TimeReaderNumpy().run(root / "time" / "out" / ("m_%s_%s" % (f, t)))
            want = T.TimeReaderNumpy().run(path, **args)
            for proc in procs:
                want = proc.run(want)
            ctx.check(np.array_equal(got.data, want.data) and got.metadata.first_time == want.metadata.first_time and got.metadata.last_time == want.metadata.last_time
                      and got.metadata.fs == want.metadata.fs and got.metadata.chans == want.metadata.chans, "process_time", f"{args}")
        ctx.drop(base)

    k = 0
    for fs, n in ((64.0, 500), (10.0, 700), (0.5, 400)):
        for procs in ([], [T.RemoveMean()], [T.Multiply(multiplier={"Ex": 2.0}), T.RemoveMean()], [T.RemoveMean(), T.Decimate(factor=2)]):
            for dec in DECS[1:4]:
                for win in WINS[:2]:
                    k += 1
                    smooth = SMOOTH[k % len(SMOOTH)]
                    ctx.case({"job": job, "fs": fs, "n": n, "procs": [p.name for p in procs], "dec": str(dec), "win": str(win), "smooth": k % len(SMOOTH)}, one, fs, n, procs, dec, win, smooth)


def job_unconfigured(job, ctx):
    """Without a configuration every flow uses the default one"""
    def one(fs, n, chans, dtype):
        base = ctx.scratch()
        root = new_project(base)
        td = recording(fs, n, start=5, chans=chans, dtype=dtype)
        path = write_measurement(root, "site", "meas", td)
        default = get_default_configuration()
        a = L.quick_read(path)
        ctx.check(np.array_equal(a.data, td.data) and a.metadata.chans == td.metadata.chans, "unconfigured-read", "")
        same_spectra(ctx, L.quick_spectra(path), L.quick_spectra(path, default), "unconfigured-spectra")
        a, b = L.quick_tf(path), L.quick_tf(path, default)
        ctx.require(list(a.freqs) == list(b.freqs) and a.tf == b.tf, "unconfigured-tf", f"{a.freqs} {b.freqs}")
        for i in range(a.n_freqs):
            ctx.check(np.allclose(a.get_tensor(i), b.get_tensor(i), rtol=1e-9, atol=1e-9), "unconfigured-tf", "another estimate")
        expect(ctx, a, want_tensor(a.tf, K1), expected_freqs(default, fs, n), "unconfigured", 1e-3 if dtype == np.float32 else 1e-6)
        env = L.load(root)
        ctx.check({**env.config.dict(), "name": ""} == {**default.dict(), "name": ""}, "unconfigured-load", "another configuration")
        L.process_time_to_evals(env, "site", "meas")
        sol = L.process_evals_to_tf(env, fs, "site")
        expect(ctx, sol, want_tensor(sol.tf, K1), expected_freqs(default, fs, n), "unconfigured-project", 1e-3 if dtype == np.float32 else 1e-6)
        for decimate in (False, True):
            for conf in (None, default):
                fig = L.quick_view(path, conf, decimate=decimate, max_pts=200)
                levels = 1 if not decimate else default.decimator.run(default.dec_setup.run(fs), L.run_time_processors(default, td)).metadata.n_levels
                ctx.check(len(fig.data) == levels * len(chans), "unconfigured-view", f"{len(fig.data)} traces")
        ctx.drop(base)

    for fs, n in ((64.0, 3000), (0.5, 2500), (512.0, 4001)):
        for chans in (CHANS, CHANS[::-1]):
            for dtype in (np.float64, np.float32):
                ctx.case({"job": job, "fs": fs, "n": n, "order": chans[0], "dtype": np.dtype(dtype).name}, one, fs, n, chans, dtype)


def job_physics(job, ctx):
    """Offsets in time change nothing, scalings of channels scale the tensor"""
    fs, n = 64.0, 700
    base_conf = configuration("c")

    def solve(td, ref):
        base = ctx.scratch()
        root = new_project(base, ref)
        path = write_measurement(root, "site", "meas", td)
        quick = L.quick_tf(path, base_conf)
        sol = L.process_evals_to_tf(evaluate(root, base_conf), fs, "site")
        ctx.drop(base)
        return quick, sol

    noise = {"Ex": signal(9, n), "Ey": signal(10, n)}
    plain = solve(recording(fs, n, extra=noise), T0)

    def offset(t0):
        for a, b in zip(plain, solve(recording(fs, n, extra=noise, t0=t0), t0)):
            ctx.check(list(a.freqs) == list(b.freqs), "offset-freqs", "")
            for i in range(a.n_freqs):
                ctx.check(np.allclose(a.get_tensor(i), b.get_tensor(i), rtol=1e-9, atol=1e-9), "time-offset", f"first time {t0.isoformat()}: {b.get_tensor(i).tolist()} expected {a.get_tensor(i).tolist()}")

    for days in (-18000, -1, 1, 59, 365, 20000):
        for part in (Fraction(0), Fraction(1, 2), Fraction(123456, 10**6), Fraction(86399)):
            t0 = time_at(T0, Fraction(days * 86400) + part)
            ctx.case({"job": job, "t0": t0.isoformat()}, offset, t0)

    def scale(chan, factor):
        td = recording(fs, n, extra=noise)
        td.data[CHANS.index(chan)] *= factor
        for a, b in zip(plain, solve(td, T0)):
            for i in range(a.n_freqs):
                want = a.get_tensor(i).copy()
                tf = base_conf.tf
                if chan in tf.out_chans:
                    want[tf.out_chans.index(chan)] *= factor
                if chan in tf.in_chans:
                    # the estimate weighs cross channels equally, only the exact part scales exactly
                    continue
                ctx.check(np.allclose(b.get_tensor(i), want, rtol=1e-8, atol=1e-8), "scaling", f"{chan} by {factor}: {b.get_tensor(i).tolist()} expected {want.tolist()}")
        td = recording(fs, n)
        td.data[CHANS.index(chan)] *= factor
        want = scaled(base_conf.tf, K1, (chan, factor if chan in OUT else 1 / factor))
        for s in solve(td, T0):
            expect(ctx, s, want, s.freqs, "scaling-exact", 1e-6)

    for chan in CHANS:
        for factor in (-1.0, 1e-3, 2.5, 1e6):
            ctx.case({"job": job, "chan": chan, "factor": factor}, scale, chan, factor)


def noise_series(key, n):
    """Deterministic white sequence (a linear congruential generator)"""
    out = np.empty(n)
    x = 12345 + 777 * key
    for i in range(n):
        x = (1103515245 * x + 12345) % 2**31
        out[i] = x / 2**30 - 1
    return out


def job_delay(job, ctx):
    """Outputs delayed against the inputs turn the phase the right way"""
    fs, n = 64.0, 6000
    for d in (1, 2, 3):
        for tf in TFS[:2]:
            for win in (256, 320):
                def one():
                    h = [noise_series(1, n + d), noise_series(2, n + d)]
                    rows = {"Hx": h[0][d:], "Hy": h[1][d:]}
                    for name, k in OUT.items():
                        rows[name] = (K1[k, 0] * h[0] + K1[k, 1] * h[1])[:n]
                    td = time_data(fs, np.array([rows[c] for c in CHANS]), CHANS)
                    conf = configuration("c", tf=tf, dec_setup=D.DecimationSetup(n_levels=1, per_level=3, min_samples=64),
                                         win_setup=W.WindowSetup(min_size=win, min_olap=win // 4, min_n_wins=2))
                    base = ctx.scratch()
                    root = new_project(base)
                    path = write_measurement(root, "site", "meas", td)
                    sols = [L.quick_tf(path, conf), L.process_evals_to_tf(evaluate(root, conf), fs, "site")]
                    for sol in sols:
                        expect(ctx, sol, lambda i: want_tensor(tf, K1) * np.exp(-2j * np.pi * sol.freqs[i] * d / fs), sol.freqs, "delay", 0.08)
                        ctx.check(np.allclose(sol.freqs, default_freqs(fs, 1, 3)), "delay-freqs", f"{sol.freqs}")
                    ctx.drop(base)

                ctx.case({"job": job, "delay": d, "tf": tf.name, "window": win}, one)


def job_mixed(job, ctx):
    """Sampling frequencies and configurations side by side in one project"""
    def one(order):
        base = ctx.scratch()
        root = new_project(base)
        parts = [("m64", 64.0, 700, K1), ("m16", 16.0, 600, K2), ("m64b", 64.0, 500, K1), ("m10", 10.0, 600, K1 - K2)]
        for name, fs, n, K in parts:
            start = 0 if name != "m64b" else 1500
            write_measurement(root, "site", name, recording(fs, n, K=K, key=3, start=start))
        confs = {
            "first": configuration("first"), "second": configuration("second", tf=Tipper(), dec_setup=D.DecimationSetup(n_levels=3, per_level=1, min_samples=64)),
            "third": configuration("third", time_processors=[T.Decimate(factor=2)]),
        }
        envs = {}
        for name in order:
            envs[name] = evaluate(root, confs[name])
        for name in order:
            for fs, n, K in ((64.0, 700, K1), (16.0, 600, K2), (10.0, 600, K1 - K2)):
                sol = L.process_evals_to_tf(envs[name], fs, "site")
                half = 2 if name == "third" else 1
                freqs = expected_freqs(confs[name], fs / half, n // half)
                expect(ctx, sol, want_tensor(confs[name].tf, K), freqs, "mixed-" + name, 1e-5)
        for name in order:
            for fs, K in ((64.0, K1), (16.0, K2), (10.0, K1 - K2)):
                tf = confs[name].tf
                sol = L.get_solution(envs[order[0]], "site", name, fs, tf.name, tf.variation)
                expect(ctx, sol, want_tensor(tf, K), sol.freqs, "mixed-stored", 1e-5)
        ctx.refuses(lambda: L.process_evals_to_tf(envs[order[0]], 32.0, "site"), "mixed-unknown-fs", "estimated from a sampling frequency nothing was recorded at")
        ctx.drop(base)

    for order in itertools.permutations(("first", "second", "third")):
        ctx.case({"job": job, "order": order}, one, order)
