"""R09 decimated levels"""
from fractions import Fraction

import numpy as np

from build import T0_ODD, time_data, station_of, STATION, chan_meta, snapshot
from ref import secs_between, abs_secs

import resistics.decimate as D

ID = "R09"
LEVEL = "exploration"
RULE = (
    "every list of total factors (all non-decreasing chains over the increment alphabet) x fs x record length "
    "on each side of every min_samples threshold x resample or FIR decimation x channel count, through the real "
    "Decimator; level tones compared with the recording's tone at the exact level sample times; "
    "non-trivial: distinct (factors, length, options)"
)
ASSUMPTIONS = [
    "values are compared away from the record ends and for tones at up to 0.7 of the level's Nyquist",
    "a recording shorter than min_samples at the first level must be refused or give no level",
]
CHANS = ["Hy", "Ex", "Hz"]


def BOUNDS(tier):
    return {"increments": incs(tier), "levels": f"1..{deep(tier)}", "channels": "1..3", "fs": FS}


FS = [10.0, 0.1, 128.0, 3.0]


def incs(tier):
    return [1, 2, 3, 5] if tier == "quick" else [1, 2, 3, 4, 5, 6]


def deep(tier):
    return 3 if tier == "quick" else 4


def chains(tier):
    out = [(i,) for i in incs(tier)]
    frontier = list(out)
    for _ in range(deep(tier) - 1):
        frontier = [c + (i,) for c in frontier for i in incs(tier)]
        out += frontier
    return [c for c in out if int(np.prod(c)) <= 60]


def jobs(tier):
    all_chains = chains(tier)
    for i, c in enumerate(all_chains):
        yield {"kind": "chain", "incs": list(c), "fs": FS[i % len(FS)] if tier == "quick" else None}
    for fs in FS:
        yield {"kind": "setup", "fs": fs}
    yield {"kind": "access"}


def n_primes(n):
    return 0 if n == 1 else next(1 + n_primes(n // p) for p in range(2, n + 1) if n % p == 0)


def params_of(fs, chain, min_samples):
    factors = np.cumprod(chain).tolist()
    return D.DecimationParameters(
        fs=fs, n_levels=len(chain), per_level=1, min_samples=min_samples,
        eval_freqs=[fs / f / 4 for f in factors], dec_factors=factors,
    )


def signal(fs, n, freqs, n_chans, dt):
    """Sum of one tone per level, weights differ per channel"""
    k = np.arange(n)
    rows = []
    for c in range(n_chans):
        row = np.full(n, 0.5 * c)
        for i, f in enumerate(freqs):
            row = row + weight(c, i) * np.sin(2 * np.pi * f * k + c + i)
        rows.append(row)
    return np.array(rows).astype(dt)


def weight(c, i):
    return 1.0 + 0.5 * ((c + i) % 3)


def run_job(job, ctx):
    globals()["job_" + job["kind"]](job, ctx)


def judge(ctx, fs, chain, n, dt, n_chans, resample, min_samples, out, freqs, params):
    """Compare all levels with the recording's definition"""
    factors = np.cumprod(chain).tolist()
    lengths, cur = [], n
    for inc in chain:
        cur = -(-cur // inc)
        lengths.append(cur)
    present = 0
    while present < len(chain) and lengths[present] >= min_samples:
        present += 1
    md = out.metadata
    ctx.require(md.n_levels == present and sorted(out.data) == list(range(present))
                and len(md.levels_metadata) == present and len(md.fs) == present,
                "n_levels", f"{md.n_levels} levels {sorted(out.data)} fs {md.fs}, expected {present} of {lengths}")
    ctx.check(md.chans == CHANS[:n_chans] and md.n_chans == n_chans, "chans", f"{md.chans} {md.n_chans}")
    ctx.check(station_of(md) == STATION, "station", "station metadata not carried")
    ctx.check(md.chans_metadata == {c: chan_meta(c, i) for i, c in enumerate(CHANS[:n_chans])}, "chans_metadata", "")
    ctx.check(abs(secs_between(md.first_time, T0_ODD)) < Fraction(1, 10**12), "first_time", md.first_time.isoformat())
    for lvl in range(present):
        factor, m = factors[lvl], lengths[lvl]
        lm = md.levels_metadata[lvl]
        data = out.get_level(lvl)
        lfs = Fraction(fs).limit_denominator(1000) / factor
        ctx.require(data.shape == (n_chans, m), "level-shape", f"level {lvl}: {data.shape}, expected {m}")
        ctx.check(data.dtype == np.dtype(dt), "level-dtype", str(data.dtype))
        ctx.check(lm.n_samples == m, "level-n_samples", f"{lm.n_samples} != {m}")
        ctx.check(abs(lm.fs - float(lfs)) <= 1e-9 * lm.fs and abs(md.fs[lvl] - float(lfs)) <= 1e-9 * lm.fs
                  and abs(lm.dt * float(lfs) - 1) <= 1e-9 and abs(params.get_fs(lvl) - lm.fs) <= 1e-9 * lm.fs,
                  "level-fs", f"level {lvl}: {lm.fs} {md.fs[lvl]} != {float(lfs)}")
        e1 = secs_between(lm.first_time, T0_ODD) * lfs
        e2 = secs_between(lm.last_time, T0_ODD) * lfs - (m - 1)
        ctx.check(abs(e1) < Fraction(1, 10**5) and abs(e2) < Fraction(1, 10**5), "level-dates",
                  f"level {lvl} first/last off by {float(e1)}/{float(e2)} samples")
        for estimate in (False, True):
            if not estimate and m > 250:
                few = np.array([0, m // 2, m - 1])
                times = dict(zip(few.tolist(), out.get_timestamps(lvl, samples=few, estimate=False)))
            else:
                times = out.get_timestamps(lvl, estimate=estimate)
            ctx.require(isinstance(times, dict) or len(times) == m, "timestamps-length", f"level {lvl} {len(times)}")
            some = out.get_timestamps(lvl, samples=np.array([1, m - 1]), estimate=estimate)
            for got, k in ((times[0], 0), (times[m // 2], m // 2), (times[m - 1], m - 1), (some[0], 1), (some[1], m - 1)):
                e = stamp(got) * lfs - (abs_secs(T0_ODD) * lfs + k)
                ctx.check(abs(e) < Fraction(1, 10**3), "timestamps", f"level {lvl} sample {k} off by {float(e)}")
        if lvl > 0 and chain[lvl] == 1:
            ctx.check(np.array_equal(data, out.get_level(lvl - 1)), "increment-one", f"level {lvl} differs")
        # tones well inside the band of the level stay where they are, others go
        k = np.arange(m) * factor
        a, b = int(m * 0.4), int(m * 0.6) + 1
        for c in range(n_chans):
            want = np.full(m, 0.5 * c)
            for i, f in enumerate(freqs):
                if f * factor <= 0.35:
                    want = want + weight(c, i) * np.sin(2 * np.pi * f * k + c + i)
            err = np.abs(data[c, a:b] - want[a:b]).max()
            amplitude = 0.5 * c + sum(weight(c, i) for i in range(len(freqs)))
            ctx.check(err <= 0.02 + 0.013 * amplitude * max(1, n_primes(factor)), "level-values",
                      f"level {lvl} channel {c} error {err:.3f} (factors {factors}, n {n})")
    return lengths, present


def stamp(t):
    import pandas as pd
    if isinstance(t, pd.Timestamp):
        return Fraction(t.value, 10**9)
    if isinstance(t, np.datetime64):
        return Fraction(int(t.astype("datetime64[ns]").astype(np.int64)), 10**9)
    return abs_secs(t)


def job_chain(job, ctx):
    chain = tuple(job["incs"])
    factors = np.cumprod(chain).tolist()
    last = factors[-1]
    # a tone for every distinct level rate: inside it, outside the next
    freqs = sorted({0.33 / f for f in factors}, reverse=True)
    keep = []
    for f in freqs:
        # a tone may not lie in the transition band of any level
        if all(f * x <= 0.36 or f * x >= 0.65 for x in factors):
            keep.append(f)
    freqs = keep

    def one(fs, n, dt, n_chans, resample, min_samples):
        td = time_data(fs, signal(fs, n, freqs, n_chans, dt), CHANS[:n_chans], T0_ODD)
        params = params_of(fs, chain, min_samples)
        proc = D.Decimator(resample=resample) if not resample else D.Decimator()
        before = snapshot(td)
        if -(-n // chain[0]) < min_samples:
            try:
                out = proc.run(params, td)
            except Exception:
                return
            ctx.check(out.metadata.n_levels == 0, "too-short", "levels shorter than min_samples")
            return
        out = proc.run(params, td)
        lengths, present = judge(ctx, fs, chain, n, dt, n_chans, resample, min_samples, out, freqs, params)
        ctx.check(snapshot(td) == before, "input-changed", "")
        # shallower requests give the same levels
        for depth in range(1, len(chain)):
            part = proc.run(params_of(fs, chain[:depth], min_samples), td)
            for lvl in range(min(depth, present)):
                ctx.check(np.array_equal(part.get_level(lvl), out.get_level(lvl)), "depends-on-deeper-levels",
                          f"level {lvl} of {depth} requested")

    for fs in [job["fs"]] if job["fs"] else FS:
        for resample in (True, False):
            if not resample and max(chain) > 13:
                continue
            base = 110 * last
            for j, (n, min_s) in enumerate((
                (base, 90), (base + 1, 90), (base - 1, 110), (base, 110), (base + 1, 111),
                (base + 1, 110), (base * 2 - 1, 150), (base, 110 * last // factors[0]), (base, 110 * last // factors[0] + 1),
            )):
                n_chans = 1 + j % 3
                dt = "float32" if j % 2 else "float64"
                ctx.case({"job": job, "fs": fs, "n": n, "min_samples": min_s, "resample": resample, "n_chans": n_chans, "dtype": dt},
                         one, fs, n, dt, n_chans, resample, min_s)


def job_setup(job, ctx):
    """The whole way from DecimationSetup"""
    fs = job["fs"]

    def one(n_levels, per_level, div, n, resample):
        params = D.DecimationSetup(n_levels=n_levels, per_level=per_level, div_factor=div, min_samples=100).run(fs)
        chain = params.dec_increments
        td = time_data(fs, signal(fs, n, [0.3 / params.dec_factors[-1]], 2, "float64"), CHANS[:2], T0_ODD)
        out = D.Decimator(resample=resample).run(params, td)
        judge(ctx, fs, chain, n, "float64", 2, resample, 100, out, [0.3 / params.dec_factors[-1]], params)

    for n_levels in (1, 2, 4, 6):
        for per_level in (1, 2, 3, 5):
            for div in (2, 3):
                for n in (1000, 1601, 4096):
                    for resample in (True, False):
                        ctx.case({"job": job, "n_levels": n_levels, "per_level": per_level, "div": div, "n": n, "resample": resample},
                                 one, n_levels, per_level, div, n, resample)


def job_access(job, ctx):
    def one(n_levels):
        chain = (1, 2, 2)[:n_levels]
        td = time_data(10.0, signal(10.0, 900, [0.02], 2, "float64"), CHANS[:2], T0_ODD)
        out = D.Decimator().run(params_of(10.0, chain, 50), td)
        for lvl in (n_levels, n_levels + 1, -1):
            ctx.refuses(lambda: out.get_level(lvl), "level-refused", f"level {lvl} of {n_levels}")
            ctx.refuses(lambda: out.get_timestamps(lvl), "level-refused-times", f"level {lvl} of {n_levels}")
        ctx.check(str(out.to_string()) != "", "to_string", "")

    for n_levels in (1, 2, 3):
        ctx.case({"job": job, "n_levels": n_levels}, one, n_levels)
