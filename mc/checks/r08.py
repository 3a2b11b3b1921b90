"""R08 decimation schemes"""
import itertools
from fractions import Fraction

import numpy as np

import resistics.decimate as D

ID = "R08"
LEVEL = "exploration"
RULE = (
    "every sampling frequency x n_levels x per_level x div_factor with default frequencies, and every "
    "frequency list drawn from a grid (all combinations and all permutations of a small grid), run through "
    "the real DecimationSetup and compared with the scheme computed in rational arithmetic; "
    "non-trivial: distinct (fs, setup)"
)
ASSUMPTIONS = [
    "decisions that hinge on a relative difference below 1e-9 may go either way",
]
FS = [1, 10, 0.1, 3, 128, 512, 24000, 0.7, 1 / 3, 65536, 50, 1e-3]


def BOUNDS(tier):
    return {"fs": FS, "n_levels": f"1..{8 if tier == 'quick' else 12}", "per_level": "1..7", "div_factor": "2..7"}


def jobs(tier):
    for fs in FS:
        for div in (2, 3, 4, 5, 7):
            yield {"kind": "default", "fs": fs, "div": div}
        yield {"kind": "user", "fs": fs}
        yield {"kind": "order", "fs": fs}
        yield {"kind": "range", "fs": fs}
    yield {"kind": "endless"}


EPS = Fraction(1, 10**9)


def allowed_factors(fs, f_max, div):
    """Powers of div that keep at least 4 f_max, largest first, with float leeway"""
    fs, target = Fraction(fs), 4 * Fraction(f_max)
    if target > fs * (1 + EPS):
        return {1}
    sure, maybe = 1, 1
    factor = 1
    while fs / (factor * div) >= target * (1 - EPS):
        factor *= div
        maybe = factor
        if fs / factor >= target * (1 + EPS):
            sure = factor
    return {sure, maybe}


def judge(ctx, setup, fs, params, freqs, exact):
    n, per, div = setup.n_levels, setup.per_level, setup.div_factor
    ctx.require(len(params.eval_freqs) == n * per, "eval-freqs-size", f"{len(params.eval_freqs)}")
    ctx.check(params.fs == fs and params.n_levels == n and params.per_level == per
              and params.min_samples == setup.min_samples, "parameters", params.json())
    if exact:
        ctx.check(params.eval_freqs == list(freqs), "eval-freqs-kept", f"{params.eval_freqs} != {freqs}")
    else:
        ctx.check(np.allclose(params.eval_freqs, freqs, rtol=1e-12, atol=0), "eval-freqs-default",
                  f"{params.eval_freqs} != {freqs}")
    ctx.require(len(params.dec_factors) == n and len(params.dec_increments) == n and len(params.dec_fs) == n,
                "levels", f"{params.dec_factors} {params.dec_increments} {params.dec_fs}")
    total = 1
    table = params.to_numpy()
    df = params.to_dataframe()
    ctx.require(table.shape == (n, per) and len(df) == n, "tables", f"{table.shape} {df.shape}")
    for lvl in range(n):
        want = list(params.eval_freqs[lvl * per : (lvl + 1) * per])
        total *= params.get_incremental_factor(lvl)
        factor = params.get_total_factor(lvl)
        ctx.check(total == factor, "increments-product", f"level {lvl}: {params.dec_increments} vs {params.dec_factors}")
        ctx.check(factor in allowed_factors(fs, max(want), div), "factor",
                  f"level {lvl}: factor {factor}, expected {allowed_factors(fs, max(want), div)} for fs {fs} and {want}")
        ctx.check(abs(params.get_fs(lvl) * factor - fs) <= 1e-12 * fs, "level-fs", f"{params.get_fs(lvl)} x {factor}")
        ctx.check(params.get_fs(lvl) >= 4 * max(want) * (1 - 1e-9) or factor == 1, "level-cannot-see-frequency", "")
        inc = params.get_incremental_factor(lvl)
        while inc > 1 and inc % div == 0:
            inc //= div
        ctx.check(inc == 1, "increment-power", f"{params.dec_increments} div {div}")
        ctx.check(params.get_eval_freqs(lvl) == want and params[lvl] == want, "level-freqs", f"level {lvl}")
        ctx.check(table[lvl].tolist() == want and df.iloc[lvl, :per].tolist() == want, "table-freqs", f"level {lvl}")
        ctx.check(df["fs"].iloc[lvl] == params.get_fs(lvl) and df["factors"].iloc[lvl] == factor
                  and df["increments"].iloc[lvl] == params.get_incremental_factor(lvl), "dataframe", f"level {lvl}")
        for idx in range(per):
            ctx.check(params.get_eval_freq(lvl, idx) == want[idx] and params[lvl, idx] == want[idx],
                      "freq-accessor", f"{lvl},{idx}")
        for idx in (-1, per, per + 3):
            ctx.refuses(lambda: params.get_eval_freq(lvl, idx), "idx-range", f"index {idx} of {per} accepted", ValueError)
            ctx.refuses(lambda: params[lvl, idx], "idx-range", f"index {idx} of {per} accepted", ValueError)
    ctx.check(all(a <= b for a, b in zip(params.dec_factors, params.dec_factors[1:])), "factors-decrease", "")
    for lvl in (-1, n, n + 2):
        for fn in (params.get_eval_freqs, params.get_fs, params.get_total_factor, params.get_incremental_factor,
                   lambda x: params.get_eval_freq(x, 0), lambda x: params[x], lambda x: params[x, 0]):
            ctx.refuses(lambda: fn(lvl), "level-range", f"level {lvl} of {n} accepted", ValueError)
    ctx.outcome(tuple(params.dec_factors))


def run_job(job, ctx):
    globals()["job_" + job["kind"]](job, ctx)


def job_default(job, ctx):
    fs, div = job["fs"], job["div"]

    def one(n, per):
        setup = D.DecimationSetup(n_levels=n, per_level=per, div_factor=div, min_samples=100 + n)
        freqs = [fs / 4 / 2 ** (i / 2) for i in range(n * per)]
        judge(ctx, setup, fs, setup.run(fs), freqs, False)
        again = setup.run(fs * 3)
        judge(ctx, setup, fs * 3, again, [3 * f for f in freqs], False)
        judge(ctx, setup, fs, setup.run(fs), freqs, False)

    for n in range(1, (8 if ctx.tier == "quick" else 12) + 1):
        for per in range(1, 8):
            ctx.case({"job": job, "n_levels": n, "per_level": per}, one, n, per)
    if div == 2:
        def default():
            setup = D.DecimationSetup()
            judge(ctx, setup, fs, setup.run(fs), [fs / 4 / 2 ** (i / 2) for i in range(40)], False)
        ctx.case({"job": job, "default": 1}, default)


def job_user(job, ctx):
    """Every descending list of grid fractions of fs, split over levels in every way"""
    fs = job["fs"]
    grid = [Fraction(x) for x in ("1/2", "1/3", "1/4", "1/5", "1/8", "1/9", "1/20", "1/27", "1/64", "1/1000")]
    if ctx.tier == "quick":
        grid = grid[::1]

    def one(freqs, n, div):
        freqs = [float(f * Fraction(fs)) for f in freqs]
        per = len(freqs) // n
        setup = D.DecimationSetup(n_levels=n, per_level=per, div_factor=div, eval_freqs=freqs)
        judge(ctx, setup, fs, setup.run(fs), freqs, True)
        ctx.check(setup.eval_freqs == freqs, "setup-changed", "")

    sizes = (1, 2, 3, 4) if ctx.tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 8)
    for size in sizes:
        for combo in itertools.combinations(grid, size):
            for n in range(1, size + 1):
                if size % n:
                    continue
                for div in (2, 3) if ctx.tier == "quick" else (2, 3, 4, 5):
                    ctx.case({"job": job, "freqs": [str(x) for x in combo], "n_levels": n, "div": div},
                             one, combo, n, div)


def job_order(job, ctx):
    """Any order of the list: consistent when the level maxima do not increase, else refused"""
    fs = job["fs"]
    grid = [Fraction(x) for x in ("1/4", "1/8", "1/30", "1/40")]

    def one(perm, n):
        freqs = [float(f * Fraction(fs)) for f in perm]
        per = len(freqs) // n
        setup = D.DecimationSetup(n_levels=n, per_level=per, eval_freqs=freqs)
        tops = [max(freqs[i * per : (i + 1) * per]) for i in range(n)]
        need = [max(allowed_factors(fs, t, 2)) for t in tops]
        if all(a <= b for a, b in zip(need, need[1:])):
            judge(ctx, setup, fs, setup.run(fs), freqs, True)
            return
        ctx.refuses(lambda: setup.run(fs), "decreasing-factors", f"levels needing factors {need} accepted", ValueError)

    for perm in itertools.permutations(grid):
        for n in (1, 2, 4):
            ctx.case({"job": job, "order": [str(x) for x in perm], "n_levels": n}, one, perm, n)


class Endless(Exception):
    pass


def job_endless(job, ctx):
    """Setups that cannot be satisfied are refused, they do not run for ever"""
    import signal

    hung = []

    def stop(*args):
        raise Endless()

    def one(make, fs):
        if hung:
            return
        old = signal.signal(signal.SIGALRM, stop)
        signal.setitimer(signal.ITIMER_REAL, 10)
        try:
            params = make().run(fs)
        except Endless:
            hung.append(fs)
            ctx.fail("endless", "the decimation parameters were not found within 10 s", None)
            return
        except Exception:
            ctx.outcome("refused")
            return
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
        ctx.outcome("accepted")
        ctx.check(all(f >= 1 for f in params.dec_factors), "endless-factors", f"{params.dec_factors}")

    for fs in FS:
        for div in (1, 0, -1, -2):
            for n in (1, 3):
                ctx.case({"job": job, "fs": fs, "div": div, "n": n}, one, lambda: D.DecimationSetup(n_levels=n, per_level=2, div_factor=div), fs)
        for freqs in ([0.0, 0.0], [fs / 8, fs / 16, 0.0, 0.0], [0.0, -1.0], [fs / 8, 0.0, -1.0, -2.0], [fs / 8, 0.0]):
            n = len(freqs) // 2
            ctx.case({"job": job, "fs": fs, "freqs": freqs}, one, lambda: D.DecimationSetup(n_levels=n, per_level=2, eval_freqs=freqs), fs)


def job_range(job, ctx):
    fs = job["fs"]

    def size(n, per, given):
        setup = D.DecimationSetup(n_levels=n, per_level=per, eval_freqs=[fs / 8 / (i + 1) for i in range(given)])
        if given == n * per:
            judge(ctx, setup, fs, setup.run(fs), setup.eval_freqs, True)
        else:
            ctx.refuses(lambda: setup.run(fs), "size-refused", f"{given} freqs for {n}x{per}", ValueError)

    for n in (1, 2, 3):
        for per in (1, 2, 3):
            for given in range(0, 11):
                ctx.case({"job": job, "n": n, "per": per, "given": given}, size, n, per, given)

    def nyquist(x, pos):
        freqs = [fs / 4, fs / 8, fs / 16]
        freqs[pos] = x * fs
        setup = D.DecimationSetup(n_levels=1, per_level=3, eval_freqs=freqs)
        if x <= 0.5:
            judge(ctx, setup, fs, setup.run(fs), freqs, True)
        else:
            ctx.refuses(lambda: setup.run(fs), "nyquist-refused", f"{freqs} accepted", ValueError)

    for x in (0.25, 0.4, 0.5, 0.500001, 0.6, 2):
        for pos in range(3):
            ctx.case({"job": job, "nyquist": x, "pos": pos}, nyquist, x, pos)

    def minimum(f_min):
        got = D.get_eval_freqs(fs, f_min=f_min)
        f, want = fs / 4, []
        i = 0
        while f / 2 ** (i / 2) >= f_min * (1 - 1e-9):
            want.append(f / 2 ** (i / 2))
            i += 1
        # odd halves of powers of two are not exact in floating point
        if want and len(want) % 2 == 0 and abs(want[-1] - f_min) <= 1e-9 * f_min and len(got) == len(want) - 1:
            want = want[:-1]
        ctx.check(len(got) == len(want) and np.allclose(got, want, rtol=1e-12, atol=0), "f-min", f"{got} {want}")

    for i in range(0, 40):
        for scale in (1.0, 0.99, 0.75):
            f_min = fs / 4 / 2 ** (i / 2) * scale
            ctx.case({"job": job, "f_min": f_min}, minimum, f_min)
    for bad in (0, -1.0, fs / 3, fs):
        ctx.case({"job": job, "f_min": bad}, ctx.refuses, lambda: D.get_eval_freqs(fs, f_min=bad), "f-min-refused", f"{bad}")
    ctx.case({"job": job, "none": 1}, ctx.refuses, lambda: D.get_eval_freqs(fs), "no-argument", "")
