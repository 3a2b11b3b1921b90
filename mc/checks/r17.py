"""R17 regression recovers the transfer function"""
import itertools
import warnings
from typing import List

import numpy as np

from build import T0, spectra_data, snapshot

import resistics.gather as G
import resistics.regression as R
from resistics.common import History
from resistics.transfunc import ImpedanceTensor, Tipper, TransferFunction

ID = "R17"
LEVEL = "exploration"
RULE = (
    "every number of output (1..3), input (1..3) and cross (1..3) channels x naming (plain, overlapping, names that are parts "
    "of each other, several characters) x number of windows from the number of unknowns up x levels and frequencies x "
    "preparer (spectra, gathered) x solver (OLS, WLS, Huber, TheilSen, RANSAC, with their options) with a different tensor at "
    "every frequency; the prepared equations are evaluated with the known tensor, noisy data are compared with an "
    "independent complex least squares, solutions are written and read; non-trivial: distinct combinations"
)
ASSUMPTIONS = [
    "the scikit-learn estimators are replaced by an exact least squares (scikit-learn is not installed here)",
    "input spectra of full rank, at least as many windows as input channels (two more where an intercept is fitted, four times for WLS)",
]
FS = 64.0


def BOUNDS(tier):
    return {"channels": 3, "windows": [1, 9] if tier == "quick" else [1, 17], "levels": 3, "frequencies per level": 3}


NAMINGS = [
    (["Ex", "Ey", "Hz"], ["Hx", "Hy", "Bz"], ["Rx", "Ry", "Rz"]),
    (["Ex", "Ey", "Hz"], ["Hx", "Hy", "Bz"], None),
    (["Ex", "Ey", "Hz"], ["Hx", "Hy", "Bz"], ["Hy", "Ex", "Hz"]),
    (["Hx", "Hy", "E"], ["Hy", "Hx", "Ex"], ["Ex", "Hx", "E"]),
    (["long channel", "2", "B-1"], ["x y", "3", "_"], ["2", "q", "x y"]),
]
SOLVERS = [
    ("OLS", lambda: R.SolverScikitOLS(n_jobs=1), 0),
    ("OLS-intercept", lambda: R.SolverScikitOLS(n_jobs=1, fit_intercept=True), 1),
    ("WLS", lambda: R.SolverScikitWLS(n_jobs=1, n_iter=4), 2),
    ("Huber", lambda: R.SolverScikitHuber(epsilon=1.2), 1),
    ("TheilSen", lambda: R.SolverScikitTheilSen(n_jobs=1), 0),
    ("TheilSen-sub", lambda: R.SolverScikitTheilSen(n_jobs=1, n_subsamples=0.8, max_subpopulation=50), 0),
    ("RANSAC", lambda: R.SolverScikitRANSAC(), 0),
]


def jobs(tier):
    for n_out, n_in, n_cross in itertools.product((1, 2, 3), repeat=3):
        yield {"kind": "exact", "n": [n_out, n_in, n_cross]}
    yield {"kind": "named"}
    yield {"kind": "scales"}
    yield {"kind": "options"}
    yield {"kind": "access"}


def run_job(job, ctx):
    warnings.simplefilter("ignore")
    globals()["job_" + job["kind"]](job, ctx)


def spectrum(key, n):
    """Deterministic, well spread complex numbers"""
    i = np.arange(n, dtype=float)
    ph = 2 * np.pi * ((i * i * 0.6180339887498949 + i * (0.3819660 + 0.07 * key) + 0.1234 * key * key) % 1.0)
    return (1.0 + ((i * 0.754877666 + 0.569840291 * key) % 1.0)) * np.exp(1j * ph)


def tensor(idx, n_out, n_in, style):
    base = np.array([[(1 + o) * 10 + 3 * i + 100 * idx - 1j * (i + 1 + 0.25 * o * (idx + 1)) for i in range(n_in)] for o in range(n_out)])
    if style == 1:
        base = 1j * base.real * (-1) ** idx
    elif style == 2:
        base = base * 1e-6
    elif style == 3:
        base = base * np.array([[(o + i + idx) % 2 for i in range(n_in)] for o in range(n_out)])
    return base


class Problem(object):
    def __init__(self, tf, n_wins, per_level, style, noise=0.0, scales=None):
        """n_wins: windows per level, scales: (input channel, cross channel, window, frequency) -> powers of ten"""
        self.scaled = scales is not None
        self.tf = tf
        self.n_wins = n_wins
        self.freqs = [[FS / 2**l / (4 + 2 * k) for k in range(per_level)] for l in range(len(n_wins))]
        self.all_freqs = [f for x in self.freqs for f in x]
        self.ins, self.outs, self.cross, self.tensors, self.noise = [], [], [], [], []
        if style == 3 and set(tf.cross_chans) & set(tf.out_chans):
            style = 0  # an output that is zero at a frequency is of no use as cross channel
        own = [c for c in tf.cross_chans if c not in tf.in_chans]
        for idx, f in enumerate(self.all_freqs):
            n = n_wins[idx // per_level]
            x = {c: spectrum(1 + k + 10 * idx, n) for k, c in enumerate(tf.in_chans)}
            z = tensor(idx, tf.n_out, tf.n_in, style)
            if scales is not None:
                quiet = np.array([10.0 ** scales[2](w) for w in range(n)]) * 10.0 ** scales[3](idx)
                x = {c: v * 10.0 ** scales[0](k) * quiet for k, (c, v) in enumerate(x.items())}
            self.tensors.append(z)
            inm = np.stack([x[c] for c in tf.in_chans], axis=1)
            outm = inm @ z.T
            if noise:
                outm = outm + noise * np.stack([spectrum(5 + 20 * o + idx, n) for o in range(tf.n_out)], axis=1)
            values = dict(zip(tf.out_chans, outm.T))
            for c in tf.out_chans:
                x.setdefault(c, values[c])
            for k, c in enumerate(own):
                x.setdefault(c, spectrum(7 + k + 3 * idx, n) * (1.0 if scales is None else 10.0 ** scales[1](k)))
            self.ins.append(inm)
            self.outs.append(outm)
            self.cross.append(np.stack([x[c] for c in tf.cross_chans], axis=1))

    def gathered(self):
        def combined(site, chans, arrays):
            md = G.SiteCombinedMetadata(site_name=site, fs=FS, chans=chans, n_evals=len(arrays), eval_freqs=self.all_freqs,
                                        measurements=[site + "m"], histories={site + "m": History()})
            return G.SiteCombinedData(md, dict(enumerate(x.copy() for x in arrays)))

        return G.GatheredData(combined("so", self.tf.out_chans, self.outs), combined("si", self.tf.in_chans, self.ins),
                              combined("sc", self.tf.cross_chans, self.cross))

    def spectra(self, reverse):
        """None when an output and an input have the same name but not the same values"""
        tf, per_level = self.tf, len(self.freqs[0])
        if set(tf.out_chans) & set(tf.in_chans):
            return None
        chans = []
        for c in tf.out_chans + tf.in_chans + tf.cross_chans + ["Other"]:
            if c not in chans:
                chans.append(c)
        chans = chans[::-1] if reverse else chans
        arrays = []
        for lvl, n in enumerate(self.n_wins):
            a = np.empty((n, len(chans), per_level), dtype=complex)
            for k in range(per_level):
                idx = lvl * per_level + k
                where = dict(zip(tf.cross_chans, self.cross[idx].T))
                where.update(zip(tf.in_chans, self.ins[idx].T))
                where.update(zip(tf.out_chans, self.outs[idx].T))
                for j, c in enumerate(chans):
                    a[:, j, k] = where.get(c, np.arange(n) + 5000.0)
            arrays.append(a)
        return spectra_data(arrays, [FS / 2**l for l in range(len(self.n_wins))], self.freqs, chans)

    def reference(self, idx):
        """Complex least squares of the cross powers, by the normal equations"""
        out = np.zeros((self.tf.n_out, self.tf.n_in), dtype=complex)
        a = (self.ins[idx][:, None, :] * np.conj(self.cross[idx])[:, :, None]).reshape(-1, self.tf.n_in)
        for o in range(self.tf.n_out):
            b = (self.outs[idx][:, o, None] * np.conj(self.cross[idx])).reshape(-1)
            out[o] = np.linalg.solve(np.conj(a.T) @ a, np.conj(a.T) @ b)
        return out


def close(a, b, tol=5e-9):
    scale = np.max(np.absolute(b)) or 1.0
    return a.shape == b.shape and np.all(np.absolute(a - b) <= tol * scale)


def judge_solution(ctx, prob, sol, tensors, key):
    tf = prob.tf
    ctx.require(list(sol.freqs) == prob.all_freqs and sol.n_freqs == len(prob.all_freqs), key + "-freqs", f"{sol.freqs}")
    ctx.check(np.allclose(sol.periods, 1 / np.array(prob.all_freqs), rtol=1e-12), key + "-periods", "")
    ctx.check(sol.tf.out_chans == tf.out_chans and sol.tf.in_chans == tf.in_chans and sol.tf.cross_chans == tf.cross_chans
              and type(sol.tf) is type(tf) and sol.tf.variation == tf.variation, key + "-tf", f"{sol.tf}")
    for idx, want in enumerate(tensors):
        got = sol.get_tensor(idx)
        ctx.require(close(got, want), key + "-tensor", lambda: f"frequency {idx}: {got.tolist()} expected {want.tolist()}")
    for o, out in enumerate(tf.out_chans):
        for i, inp in enumerate(tf.in_chans):
            want = np.array([t[o, i] for t in tensors])
            got = np.asarray(sol[out + inp])
            scale = max(np.max(np.absolute(t)) for t in tensors) or 1.0
            ctx.check(got.shape == want.shape and np.all(np.absolute(got - want) <= 5e-9 * scale), key + "-component",
                      lambda: f"{out}{inp}: {got.tolist()} expected {want.tolist()}")
            ctx.check(np.array_equal(got, sol.get_component(out + inp)), key + "-component", "[] and get_component differ")
    ctx.check(len(sol.components) == tf.n_out * tf.n_in, key + "-n-components", f"{list(sol.components)}")


def judge_input(ctx, prob, reg):
    """The prepared equations hold for the true tensor and have full rank"""
    tf = prob.tf
    ctx.require(list(reg.freqs) == prob.all_freqs and reg.n_freqs == len(prob.all_freqs), "input-freqs", f"{reg.freqs}")
    for idx, z in enumerate(prob.tensors):
        n = prob.ins[idx].shape[0]
        for o, chan in enumerate(tf.out_chans):
            obs, preds = reg.get_inputs(idx, chan)
            ctx.require(obs.shape == (n * tf.n_cross * 2,) and preds.shape == (n * tf.n_cross * 2, tf.n_in * 2), "input-shape", f"{obs.shape} {preds.shape}")
            coef = np.stack([z[o].real, z[o].imag], axis=1).reshape(-1)
            # real and imaginary part of an equation are of one size
            size = np.absolute(obs) + np.absolute(preds) @ np.absolute(coef)
            size = np.repeat(np.max(size.reshape(-1, 2), axis=1), 2)
            ctx.check(np.all(np.absolute(preds @ coef - obs) <= 1e-9 * size), "input-equations", f"frequency {idx} {chan}: the equations do not hold")
            got = np.sort(np.absolute(obs[0::2] + 1j * obs[1::2]))
            want = np.sort(np.absolute(prob.outs[idx][:, o, None] * np.conj(prob.cross[idx])).ravel())
            terms = np.max(np.absolute(prob.ins[idx]) @ np.absolute(prob.tensors[idx][o]))
            ctx.check(np.allclose(got, want, rtol=1e-9, atol=0 if prob.scaled else 1e-12 * (1 + terms)), "input-rows", f"frequency {idx} {chan}: not one equation for each window and cross channel")
            for i in range(tf.n_in):
                got = np.sort(np.absolute(preds[0::2, 2 * i] + 1j * preds[1::2, 2 * i]))
                want = np.sort(np.absolute(prob.ins[idx][:, i, None] * np.conj(prob.cross[idx])).ravel())
                ctx.check(np.allclose(got, want, rtol=1e-9, atol=0), "input-predictors", f"frequency {idx} {chan}: predictors of {tf.in_chans[i]}")


def one(ctx, tf, n_wins, per_level, style, solver, via, write):
    prob = Problem(tf, n_wins, per_level, style)
    if via == "gathered":
        data = prob.gathered()
        before = [snapshot(x) for x in (data.out_data, data.in_data, data.cross_data)]
        reg = R.RegressionPreparerGathered().run(tf, data)
        ctx.check(before == [snapshot(x) for x in (data.out_data, data.in_data, data.cross_data)], "input-changed", via)
        ctx.check({k: v.site_name for k, v in reg.metadata.contributors.items()} == {"out_data": "so", "in_data": "si", "cross_data": "sc"}, "contributors", "")
    else:
        data = prob.spectra(via == "reversed")
        if data is None:
            return
        before = snapshot(data)
        reg = R.RegressionPreparerSpectra().run(tf, data)
        ctx.check(before == snapshot(data), "input-changed", via)
    judge_input(ctx, prob, reg)
    sol = solver().run(reg)
    judge_solution(ctx, prob, sol, prob.tensors, "solution")
    names = [r.creator["name"] for r in sol.history.records]
    ctx.check(len(names) == 2 and names[0].startswith("RegressionPreparer") and names[1].startswith("Solver"), "solution-history", f"{names}")
    if write:
        base = ctx.scratch()
        path = base / "solution.json"
        sol.write(path)
        back = R.Solution.parse_file(path)
        judge_solution(ctx, prob, back, prob.tensors, "read")
        ctx.check(back.components == sol.components and back.freqs == sol.freqs and set(back.contributors) == set(sol.contributors), "read-exact", "")
        ctx.drop(base)
    # noise: least squares over all windows and cross channels
    if solver is SOLVERS[0][1] and tf.n_in <= min(n_wins):
        prob = Problem(tf, n_wins, per_level, style, noise=0.5)
        data = prob.gathered() if via == "gathered" else prob.spectra(via == "reversed")
        prep = R.RegressionPreparerGathered() if via == "gathered" else R.RegressionPreparerSpectra()
        sol = solver().run(prep.run(tf, data))
        for idx in range(len(prob.all_freqs)):
            want, got = prob.reference(idx), sol.get_tensor(idx)
            ctx.check(close(got, want, 1e-5), "least-squares", lambda: f"frequency {idx}: {got.tolist()} expected {want.tolist()}")


def job_exact(job, ctx):
    n_out, n_in, n_cross = job["n"]
    k = 0
    for ni, (outs, ins, cross) in enumerate(NAMINGS):
        if cross is None and n_cross != n_in:
            continue
        for sname, solver, extra in SOLVERS:
            low = {0: n_in, 1: n_in + 2, 2: 4 * n_in + 2}[extra]
            for more in (0, 1, 4) if ctx.tier == "quick" else (0, 1, 2, 4, 8):
                for levels in ((0,), (1, 0), (0, 2, 1)):
                    for per_level in (1, 2, 3):
                        k += 1
                        if ctx.tier == "quick" and k % 3 and more:
                            continue
                        tf = TransferFunction(variation="v", out_chans=outs[:n_out], in_chans=ins[:n_in], cross_chans=None if cross is None else cross[:n_cross])
                        via = ["gathered", "spectra", "reversed"][k % 3 if sname == "OLS" or k % 2 else 0]
                        case = {"job": job, "naming": ni, "solver": sname, "more": more, "levels": levels, "per_level": per_level, "style": k % 4, "via": via}
                        ctx.case(case, one, ctx, tf, [low + more + x for x in levels], per_level, k % 4, solver, via, k % 7 == 0)


def prepared(prob, via):
    if via == "gathered":
        return R.RegressionPreparerGathered().run(prob.tf, prob.gathered())
    data = prob.spectra(via == "reversed")
    return None if data is None else R.RegressionPreparerSpectra().run(prob.tf, data)


def job_scales(job, ctx):
    """Quiet windows, frequencies and channels keep their equations"""
    flat = lambda k: 0
    shapes = {"quiet cross": (flat, lambda k: -6 * (k + 1), flat, flat), "loud cross": (flat, lambda k: 9 * (k + 1), flat, flat),
              "quiet input": (lambda k: -5 * k, flat, flat, flat), "quiet windows": (flat, flat, lambda w: -(w % 7) * 2, flat),
              "one loud window": (flat, flat, lambda w: 12 if w == 2 else 0, flat), "quiet frequencies": (flat, flat, flat, lambda i: -7 * i),
              "all tiny": (lambda k: -30, lambda k: -30, flat, flat), "all large": (lambda k: 40, lambda k: 40, flat, flat),
              "all": (lambda k: -3 * k, lambda k: -4 * k, lambda w: -(w % 3) * 2, lambda i: 3 * i)}

    def case(tf, shape, via, wins, style):
        prob = Problem(tf, wins, 2, style, scales=shapes[shape])
        reg = prepared(prob, via)
        if reg is None:
            return
        judge_input(ctx, prob, reg)
        if shape in ("quiet cross", "loud cross", "quiet frequencies", "all tiny", "all large"):
            sol = SOLVERS[0][1]().run(reg)
            for idx, want in enumerate(prob.tensors):
                got = sol.get_tensor(idx)
                ctx.check(close(got, want), "scales-tensor", lambda: f"frequency {idx}: {got.tolist()} expected {want.tolist()}")

    for ni, (outs, ins, cross) in enumerate(NAMINGS):
        for n_out, n_in, n_cross in ((1, 1, 1), (2, 2, 2), (1, 2, 3), (3, 3, 2), (2, 1, 3)):
            for shape in shapes:
                for via in ("gathered", "spectra"):
                    tf = TransferFunction(variation="v", out_chans=outs[:n_out], in_chans=ins[:n_in], cross_chans=None if cross is None else cross[:n_cross])
                    ctx.case({"job": job, "naming": ni, "n": [n_out, n_in, n_cross], "shape": shape, "via": via}, case, tf, shape, via, [n_in + 4, n_in + 9], ni % 2)


def job_options(job, ctx):
    """Options of the solvers reach the regression: an offset is fitted exactly where asked for, and the estimators get the values set"""
    import sklearn.linear_model as LM

    kinds = {"OLS": (R.SolverScikitOLS, LM.LinearRegression), "WLS": (R.SolverScikitWLS, LM.LinearRegression), "Huber": (R.SolverScikitHuber, LM.HuberRegressor),
             "TheilSen": (R.SolverScikitTheilSen, LM.TheilSenRegressor), "RANSAC": (R.SolverScikitRANSAC, LM.RANSACRegressor)}

    def offset(kind, intercept, tf, per_level):
        cls = kinds[kind][0]
        kwargs = {} if intercept is None else {"fit_intercept": intercept}
        if kind in ("OLS", "WLS", "TheilSen"):
            kwargs["n_jobs"] = 1
        if kind == "WLS":
            kwargs["n_iter"] = 1
        prob = Problem(tf, [4 * tf.n_in + 3, 4 * tf.n_in + 4], per_level, 0)
        reg = prepared(prob, "gathered")
        moved = R.RegressionInputData(reg.metadata, reg.tf, reg.freqs, [{c: v + 3.0 * (i + 1) for i, (c, v) in enumerate(o.items())} for o in reg.obs], reg.preds)
        sol = cls(**kwargs).run(moved)
        for idx, z in enumerate(prob.tensors):
            got = sol.get_tensor(idx)
            if intercept:
                want = z
            else:
                want = np.empty((tf.n_out, tf.n_in), dtype=complex)
                for o, c in enumerate(tf.out_chans):
                    obs, preds = moved.get_inputs(idx, c)
                    coef = np.linalg.solve(preds.T @ preds, preds.T @ obs)
                    want[o] = coef[0::2] + 1j * coef[1::2]
                ctx.check(not close(want, z, 1e-7), "harness-offset", "the offset makes no difference")
            ctx.check(close(got, want, 1e-7), "intercept", lambda: f"{kind} fit_intercept={intercept}: {got.tolist()} expected {want.tolist()}")

    for kind in kinds:
        for intercept in (None, False, True):
            for tf in (ImpedanceTensor(), Tipper(), TransferFunction(out_chans=["Ex"], in_chans=["Hx", "Hy", "Hz"], cross_chans=["Rx", "Ry", "Rz"])):
                for per_level in (1, 2):
                    ctx.case({"job": job, "offset": kind, "intercept": intercept, "tf": tf.name, "n_in": tf.n_in, "per_level": per_level}, offset, kind, intercept, tf, per_level)

    def reach(kind, options, expected):
        """Values of the estimators that were fitted"""
        cls, est = kinds[kind]
        seen = []
        original = est.fit

        def fit(self, X, y, *args, **kwargs):
            seen.append((dict(vars(self)), np.asarray(X).shape[0], args, kwargs))
            return original(self, X, y, *args, **kwargs)

        prob = Problem(ImpedanceTensor(), [9, 12], 2, 0)
        reg = prepared(prob, "gathered")
        est.fit = fit
        try:
            cls(**options).run(reg)
        finally:
            est.fit = original
        ctx.require(len(seen) > 0, "options", "nothing was fitted")
        for values, rows, args, kwargs in seen:
            for name, want in expected.items():
                want = want(rows) if callable(want) else want
                ctx.check(values.get(name) == want, "options", lambda: f"{kind}({options}): {name} = {values.get(name)!r} expected {want!r}")
        if kind == "WLS":
            ctx.check(len(seen) == 4 * 2 * options["n_iter"], "options", f"{len(seen)} fits, {options}")

    for jobs_ in (1, 2, -1):
        ctx.case({"job": job, "reach": "OLS", "n_jobs": jobs_}, reach, "OLS", {"n_jobs": jobs_}, {"n_jobs": jobs_})
        ctx.case({"job": job, "reach": "TheilSen", "n_jobs": jobs_}, reach, "TheilSen", {"n_jobs": jobs_}, {"n_jobs": jobs_})
    for norm in (False, True):
        ctx.case({"job": job, "reach": "OLS", "normalize": norm}, reach, "OLS", {"normalize": norm, "fit_intercept": True}, {"normalize": norm})
    for n_iter in (1, 2, 5):
        ctx.case({"job": job, "reach": "WLS", "n_iter": n_iter}, reach, "WLS", {"n_iter": n_iter, "n_jobs": 1}, {"n_jobs": 1})
    for eps in (1, 1.1, 1.35, 5.0):
        ctx.case({"job": job, "reach": "Huber", "epsilon": eps}, reach, "Huber", {"epsilon": eps}, {"epsilon": eps})
    for pop in (10, 2000, 12345):
        ctx.case({"job": job, "reach": "TheilSen", "max_subpopulation": pop}, reach, "TheilSen", {"max_subpopulation": pop}, {"max_subpopulation": pop, "n_subsamples": None})
    for part in (0.25, 0.5, 0.8, 1.0):
        ctx.case({"job": job, "reach": "TheilSen", "n_subsamples": part}, reach, "TheilSen", {"n_subsamples": part}, {"n_subsamples": lambda rows: int(rows * part)})
    for part in (0.3, 0.8, 1.0):
        for trials in (1, 20, 77):
            ctx.case({"job": job, "reach": "RANSAC", "min_samples": part, "max_trials": trials}, reach, "RANSAC", {"min_samples": part, "max_trials": trials},
                     {"min_samples": part, "max_trials": trials})


def job_named(job, ctx):
    """The transfer functions of the package and of a user"""

    class Mine(TransferFunction):
        out_chans: List[str] = ["Ex"]
        in_chans: List[str] = ["Hx", "Hz"]
        variation: str = "mine"
        extra: int = 3

    k = 0
    for tf in (ImpedanceTensor(), ImpedanceTensor(cross_chans=["Rx", "Ry"], variation="rr"), Tipper(), Tipper(variation="x", cross_chans=["Hx", "Hy", "Rx"]), Mine(), Mine(extra=5)):
        for sname, solver, extra in SOLVERS:
            for via in ("gathered", "spectra", "reversed"):
                for per_level in (1, 2):
                    k += 1
                    low = {0: tf.n_in, 1: tf.n_in + 2, 2: 4 * tf.n_in + 2}[extra]
                    ctx.case({"job": job, "tf": tf.name, "variation": tf.variation, "solver": sname, "via": via, "per_level": per_level},
                             one, ctx, tf, [low, low + 1], per_level, k % 4, solver, via, True)


def job_access(job, ctx):
    """Unknown components are refused, colliding names of components are not mixed up"""
    def unknown():
        prob = Problem(ImpedanceTensor(), [4], 2, 0)
        sol = SOLVERS[0][1]().run(R.RegressionPreparerGathered().run(prob.tf, prob.gathered()))
        for bad in ("HxEx", "Ex", "", "ExHz", "exhx", 0, None):
            ctx.refuses(lambda: sol[bad], "unknown-refused", f"component {bad!r} returned")
        for idx in (2, 5):
            ctx.refuses(lambda: sol.get_tensor(idx), "unknown-refused", f"tensor {idx} returned")

    ctx.case({"job": job, "what": "unknown"}, unknown)

    def colliding(outs, ins):
        tf = TransferFunction(out_chans=outs, in_chans=ins)
        prob = Problem(tf, [5, 6], 2, 0)
        try:
            sol = SOLVERS[0][1]().run(R.RegressionPreparerGathered().run(tf, prob.gathered()))
        except Exception:
            ctx.outcome("refused")
            return
        for idx, want in enumerate(prob.tensors):
            got = sol.get_tensor(idx)
            ctx.check(close(got, want), "component-names-collide", lambda: f"outputs {outs} inputs {ins}: {got.tolist()} expected {want.tolist()}")

    for outs, ins in ((["A", "AB"], ["BC", "C"]), (["E", "Ex"], ["xH", "H"]), (["1", "11"], ["1", "11"])):
        ctx.case({"job": job, "outs": outs, "ins": ins}, colliding, outs, ins)
    for n_wins in ([0], [3, 0]):
        def empty():
            prob = Problem(ImpedanceTensor(), n_wins, 1, 0)
            try:
                sol = SOLVERS[0][1]().run(R.RegressionPreparerGathered().run(prob.tf, prob.gathered()))
            except Exception:
                ctx.outcome("refused")
                return
            for idx, f in enumerate(sol.freqs):
                n = n_wins[idx]
                if n:
                    ctx.check(close(sol.get_tensor(idx), prob.tensors[idx]), "empty-levels", "")
                else:
                    ctx.check(not np.all(np.isfinite(sol.get_tensor(idx))), "empty-levels", "an estimate was made from no data")

        ctx.case({"job": job, "windows": n_wins}, empty)
