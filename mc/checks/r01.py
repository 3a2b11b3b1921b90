"""R01 sample <-> time conversion against exact rational arithmetic"""
from fractions import Fraction

import numpy as np
from attotime import attodatetime

from ref import delta_of, seconds_of, secs_between, time_at, ceil_frac, floor_frac

from resistics import sampling as S

ID = "R01"
LEVEL = "exploration"
RULE = (
    "every fs x first time x sample number x offset from the sample (before, at, "
    "just after, between) is evaluated on the real conversions and compared with "
    "exact rational arithmetic; non-trivial: every distinct (fs, t0, sample, offset)"
)
ASSUMPTIONS = [
    "times within 1e-6 of a sample period of a sample count as being on it",
    "fs is the exact value of the float given",
]

FS_QUICK = [
    1, 2, 3, 5, 7, 10, 12, 20, 25, 50, 60, 64, 100, 128, 150, 250, 256, 500, 512, 1000,
    1024, 4096, 16384, 24000, 65536, 131072, 0.5, 0.25, 0.1, 0.2, 0.05, 0.01,
    0.016666666666666666, 0.0333333333333, 1 / 3, 0.125, 0.001, 1.5, 2.5, 6.25, 33.3,
    8.333333333333334, 0.7, 1e-4, 512.5, 15.625,
]
FS_MORE = [x / 10 for x in range(11, 100, 7)] + [2 ** (k / 2) for k in range(-12, 30)]
FIRST = [
    attodatetime(2021, 1, 1),
    attodatetime(2019, 12, 31, 23, 59, 59, 999_999, 999),
    attodatetime(2020, 2, 28, 13, 7, 11, 61, 35) + delta_of(Fraction(1, 3 * 10**9)),
]
OFFSETS = [
    Fraction(0), Fraction(1, 1000), Fraction(-1, 1000), Fraction(1, 2),
    Fraction(1, 4), Fraction(-1, 4), Fraction(3, 4), Fraction(999, 1000),
]


def BOUNDS(tier):
    return {
        "fs": len(FS_QUICK) if tier == "quick" else len(FS_QUICK + FS_MORE),
        "samples": "0..N dense plus decades to 1e6 (quick N=70, thorough N=1200)",
        "offsets_in_samples": [str(x) for x in OFFSETS],
        "first_times": [str(x) for x in FIRST],
    }


def jobs(tier):
    fss = FS_QUICK if tier == "quick" else FS_QUICK + FS_MORE
    return [{"fs": fs, "first": i} for fs in fss for i in range(len(FIRST))]


def dense(tier, fi):
    if tier == "quick":
        return 70 if fi == 0 else 25
    return 1200 if fi == 0 else 300


def ks(tier, fi):
    out = list(range(dense(tier, fi)))
    for base in (100, 1000, 9999, 86400, 100_000, 250_001, 1_000_000):
        out.extend([base - 1, base, base + 1])
    return sorted(set(out))


def run_job(job, ctx):
    fs, t0 = job["fs"], FIRST[job["first"]]
    ffs = Fraction(fs)
    period = 1 / ffs
    tol = Fraction(1, 10**5) * period
    allks = ks(ctx.tier, job["first"])
    n_last = max(allks) + 3
    n_dense = dense(ctx.tier, job["first"])

    def one_sample(k):
        t = S.sample_to_datetime(fs, t0, k)
        err = abs(secs_between(t, t0) - k * period)
        ctx.require(
            err <= tol + Fraction(1, 10**18),
            "sample_to_datetime",
            f"fs={fs} sample {k} dated {t}, off by {float(err/period)} samples",
        )
        last = S.sample_to_datetime(fs, t0, n_last)
        a = S.from_time_to_sample(fs, t0, last, t)
        b = S.to_time_to_sample(fs, t0, last, t)
        ctx.outcome((a - k, b - k))
        ctx.check(a == k, "roundtrip-from", f"fs={fs} time of sample {k} -> from sample {a}")
        ctx.check(b == k, "roundtrip-to", f"fs={fs} time of sample {k} -> to sample {b}")
        for method in ("round", "floor", "ceil"):
            n = S.to_n_samples(t - t0, fs, method=method)
            ctx.check(
                n == k + 1 and isinstance(n, int),
                "to_n_samples",
                f"fs={fs} {method} of duration of {k} periods gives {n}",
            )

    for k in allks:
        ctx.case(f"fs={fs} t0={t0.isoformat()} k={k}", one_sample, k)

    def query(k, off):
        x = k + off
        t = time_at(t0, x * period)
        last = time_at(t0, n_last * period)
        exp_from = max(0, ceil_frac(x))
        exp_to = floor_frac(x)
        a = S.from_time_to_sample(fs, t0, last, t)
        ctx.check(a == exp_from, "from_time", f"fs={fs} at {float(x)} samples -> {a}")
        if x >= 0:
            b = S.to_time_to_sample(fs, t0, last, t)
            ctx.check(b == exp_to, "to_time", f"fs={fs} at {float(x)} samples -> {b}")
            for method, exp in (
                ("floor", floor_frac(x)), ("ceil", ceil_frac(x)),
                ("round", floor_frac(x + Fraction(1, 2))),
            ):
                if method == "round" and off == Fraction(1, 2):
                    continue
                n = S.to_n_samples(t - t0, fs, method=method)
                ctx.check(
                    n == exp + 1, "to_n_samples-between",
                    f"fs={fs} {method} at {float(x)} samples -> {n}",
                )
        else:
            ctx.refuses(
                lambda: S.to_time_to_sample(fs, t0, last, t),
                "to-before-start", f"to time before first accepted fs={fs}", ValueError,
            )
        # a range starting here and ending 2.5 samples later
        if x >= 0:
            t2 = time_at(t0, (x + Fraction(5, 2)) * period)
            got = S.datetimes_to_samples(fs, t0, last, t, t2)
            exp = (exp_from, min(floor_frac(x + Fraction(5, 2)), n_last))
            ctx.check(
                tuple(got) == exp, "datetimes_to_samples", f"fs={fs} {float(x)} -> {got}"
            )

    for k in allks:
        if k > n_dense // 2 and k < 100:
            continue
        for off in OFFSETS[1:]:
            ctx.case(f"fs={fs} t0={t0.isoformat()} query {k}+{off}", query, k, off)

    def ends(n):
        """recording of n samples, queries around its ends"""
        last = time_at(t0, (n - 1) * period)
        for off in (Fraction(1, 2), Fraction(1), Fraction(1000)):
            after = time_at(last, off * period)
            before = time_at(t0, -off * period)
            ctx.check(
                S.to_time_to_sample(fs, t0, last, after) == n - 1,
                "clamp-to", f"fs={fs} n={n} to time {off} samples after end",
            )
            ctx.check(
                S.from_time_to_sample(fs, t0, last, before) == 0,
                "clamp-from", f"fs={fs} n={n} from time {off} samples before start",
            )
            ctx.refuses(
                lambda: S.from_time_to_sample(fs, t0, last, after),
                "from-after-end", f"fs={fs} from time after the end accepted", ValueError,
            )
            ctx.refuses(
                lambda: S.to_time_to_sample(fs, t0, last, before),
                "to-before-start", f"fs={fs} to time before start accepted", ValueError,
            )
            got = S.check_from_time(t0, last, before)
            ctx.check(got == t0, "check_from_time", f"{got}")
            got = S.check_to_time(t0, last, after)
            ctx.check(got == last, "check_to_time", f"{got}")
        mid = time_at(t0, (n - 1) * period / 2)
        ctx.check(S.check_from_time(t0, last, mid) == mid, "check_from_time", "moved")
        ctx.check(S.check_to_time(t0, last, mid) == mid, "check_to_time", "moved")
        ctx.check(
            S.from_time_to_sample(fs, t0, last, last) == n - 1
            and S.to_time_to_sample(fs, t0, last, last) == n - 1
            and S.from_time_to_sample(fs, t0, last, t0) == 0
            and S.to_time_to_sample(fs, t0, last, t0) == 0,
            "ends", f"fs={fs} n={n}",
        )
        for k in range(-2, n + 3):
            ok = 0 <= k < n
            for fnc, name in (
                (lambda: S.check_sample(n, k), "check_sample"),
                (lambda: S.sample_to_datetime(fs, t0, k, n_samples=n), "sample_to_datetime-n"),
            ):
                try:
                    fnc()
                    good = ok
                except ValueError:
                    good = not ok
                ctx.check(good, name, f"sample {k} of {n}")

    for n in (1, 2, 3, 10, 17):
        ctx.case(f"fs={fs} t0={t0.isoformat()} ends n={n}", ends, n)

    def pairs(a, b):
        if a >= b:
            ctx.refuses(
                lambda: S.samples_to_datetimes(fs, t0, a, b), "samples_to_datetimes",
                f"inverted samples {a}, {b} accepted", ValueError,
            )
            return
        ta, tb = S.samples_to_datetimes(fs, t0, a, b)
        ctx.check(
            abs(secs_between(ta, t0) - a * period) <= tol
            and abs(secs_between(tb, t0) - b * period) <= tol,
            "samples_to_datetimes", f"fs={fs} {a},{b} -> {ta},{tb}",
        )

    for a in (0, 1, 2, 7, 1000):
        for b in (0, 1, 2, 8, 999, 1001):
            ctx.case(f"fs={fs} t0={t0.isoformat()} pair {a},{b}", pairs, a, b)

    def arrays(n):
        arr = S.datetime_array(t0, fs, n_samples=n)
        sel = np.array([0, n // 2, n - 1, 3 * n + 1])
        arr2 = S.datetime_array(t0, fs, samples=sel)
        est = S.datetime_array_estimate(t0, fs, n_samples=n)
        est2 = S.datetime_array_estimate(t0, fs, samples=sel)
        ctx.require(len(arr) == n and len(est) == n and len(arr2) == 4 and len(est2) == 4,
                    "datetime_array-length", f"fs={fs} n={n}")
        for i, k in list(enumerate(range(n))):
            ctx.check(abs(secs_between(arr[i], t0) - k * period) <= tol,
                      "datetime_array", f"fs={fs} k={k} {arr[i]}")
        for i, k in enumerate(sel.tolist()):
            ctx.check(abs(secs_between(arr2[i], t0) - k * period) <= tol,
                      "datetime_array-samples", f"fs={fs} k={k} {arr2[i]}")
        # estimates are pandas nanosecond dates with a nanosecond period
        for e, kk in ((est, range(n)), (est2, sel.tolist())):
            for i, k in enumerate(kk):
                err = abs(secs_between(S.to_datetime(e[i]), t0) - k * period)
                ctx.check(err <= Fraction(2 + 2 * k, 10**9) + tol, "datetime_array_estimate",
                          f"fs={fs} k={k} {e[i]} err {float(err)}")

    for n in (1, 2, 5, 37):
        ctx.case(f"fs={fs} t0={t0.isoformat()} array n={n}", arrays, n)
    ctx.case(
        "array without sizes", lambda: ctx.refuses(
            lambda: S.datetime_array(t0, fs), "datetime_array-args", "accepted", ValueError),
    )
