"""R11 window parameters and accessors"""
import itertools
from fractions import Fraction

import numpy as np

from build import T0, T0_ODD, chan_meta, station_of, STATION
from ref import secs_between, abs_secs, floor_frac
from checks.r10 import dec_data, expected, exact

import resistics.spectra as S
import resistics.window as W
from resistics.errors import ChannelNotFoundError

ID = "R11"
LEVEL = "exploration"
RULE = (
    "every WindowSetup over its parameter alphabet x level rates; every WindowerTarget configuration x record; "
    "every (level, local window, global window, channel, ordered channel subset, frequency) address of windowed "
    "and spectra data of every small shape, inside and outside the valid range; "
    "non-trivial: distinct (setup or shape, address)"
)
ASSUMPTIONS = ["get_freq is compared up to dropped axes of length one, as it squeezes its result"]
CHANS = ["Hy", "Ex", "Hz"]


def BOUNDS(tier):
    return {"levels": "1..4", "windows": "1..5", "channels": "1..3", "index_offset": [0, 1, 7, 100000]}


def jobs(tier):
    for ms in (1, 4, 16, 128):
        yield {"kind": "setup", "min_size": ms}
    yield {"kind": "lists"}
    for fs in (10.0, 0.1, 3.0, 128.0):
        yield {"kind": "target", "fs": fs}
    for n_chans in (1, 2, 3):
        for n_wins in (1, 2, 5):
            yield {"kind": "access", "n_chans": n_chans, "n_wins": n_wins}


def run_job(job, ctx):
    globals()["job_" + job["kind"]](job, ctx)


def judge_setup(ctx, setup, n_levels, dec_fs):
    """What the parameters must be, None when they must be refused"""
    if setup.win_sizes is None:
        wins = [max(setup.min_size, int(Fraction(fs) / setup.win_factor // 1)) for fs in dec_fs[:n_levels]]
    else:
        wins = list(setup.win_sizes)
        if len(wins) < n_levels:
            return None
        wins = wins[:n_levels]
    if setup.olap_sizes is None:
        olaps = [max(setup.min_olap, int(w * setup.olap_proportion)) for w in wins]
    else:
        olaps = list(setup.olap_sizes)
        if len(olaps) < n_levels:
            return None
        olaps = olaps[:n_levels]
    if any(not 0 < o < w for w, o in zip(wins, olaps)):
        return None
    return wins, olaps


def one_setup(ctx, setup, n_levels, dec_fs):
    want = judge_setup(ctx, setup, n_levels, dec_fs)
    if want is None:
        ctx.refuses(lambda: setup.run(n_levels, dec_fs), "setup-not-refused",
                    f"{setup.json()} accepted for {n_levels} levels {dec_fs}")
        return
    before = setup.json()
    params = setup.run(n_levels, dec_fs)
    ctx.check((params.win_sizes, params.olap_sizes) == want, "setup-sizes",
              f"{params.win_sizes} {params.olap_sizes} expected {want}")
    ctx.check(params.n_levels == n_levels and params.min_n_wins == setup.min_n_wins, "setup-levels", params.json())
    for lvl in range(n_levels):
        ctx.check(params.get_win_size(lvl) == want[0][lvl] and params.get_olap_size(lvl) == want[1][lvl],
                  "setup-accessor", f"level {lvl}")
    for lvl in (-1, n_levels, n_levels + 3):
        ctx.refuses(lambda: params.get_win_size(lvl), "setup-range", f"level {lvl} of {n_levels}", ValueError)
        ctx.refuses(lambda: params.get_olap_size(lvl), "setup-range", f"level {lvl} of {n_levels}", ValueError)
    ctx.check(setup.json() == before, "setup-changed", "the setup changed its own parameters")
    ctx.outcome((tuple(want[0]), tuple(want[1])))


RATES = [[10.0], [512.0, 128.0], [0.1, 0.05, 0.0125], [4096.0, 1024.0, 64.0, 16.0], [1001.0, 333.3]]


def job_setup(job, ctx):
    for min_olap in (1, 3, 16, 32):
        for factor in (1, 4, 7):
            for prop in (0.0, 0.25, 0.5, 0.9, 1.0):
                for rates in RATES:
                    for n in range(1, len(rates) + 1):
                        setup = W.WindowSetup(min_size=job["min_size"], min_olap=min_olap, win_factor=factor,
                                              olap_proportion=prop, min_n_wins=2 + n)
                        ctx.case({"job": job, "setup": setup.json(), "n_levels": n, "fs": rates},
                                 one_setup, ctx, setup, n, rates)
    if job["min_size"] == 128:
        for rates in RATES:
            ctx.case({"job": job, "default": rates}, one_setup, ctx, W.WindowSetup(), len(rates), rates)


def job_lists(job, ctx):
    rates = [512.0, 128.0, 32.0]
    for size in range(0, 5):
        for wins in ([64, 16, 40, 8, 100][:size], [33] * size):
            for olaps in [None] + [o[:k] for k in range(0, 5) for o in ([8, 4, 10, 2, 5], [20, 16, 3, 3], [0, 1, 1, 1])]:
                for n in (1, 2, 3):
                    setup = W.WindowSetup(win_sizes=list(wins), olap_sizes=olaps, min_olap=4)
                    ctx.case({"job": job, "wins": wins, "olaps": olaps, "n_levels": n}, one_setup, ctx, setup, n, rates)
                    setup = W.WindowSetup(min_size=12, olap_sizes=olaps)
                    ctx.case({"job": job, "olaps": olaps, "n_levels": n}, one_setup, ctx, setup, n, rates)


def job_target(job, ctx):
    fs = job["fs"]

    def one(target, min_size, prop, n, offset, n_chans):
        win = max(min_size, floor_frac(Fraction(n) / ((1 - Fraction(prop)) * target)))
        olap = int(np.floor(prop * win))
        dd = dec_data([fs], [offset], [n], n_chans, T0)
        params = W.WindowParameters(n_levels=1, min_n_wins=2, win_sizes=[2], olap_sizes=[1])
        windower = W.WindowerTarget(target=target, min_size=min_size, olap_proportion=prop)
        # relative to any reference time, at least one window less than this fits
        most = (n - win) // (win - olap) + 1 if n >= win else 0
        try:
            out = windower.run(T0, params, dd)
        except Exception as e:
            if most - 1 >= params.min_n_wins:
                raise
            return  # too few windows to window any level
        md, lm = out.metadata, out.metadata.levels_metadata[0]
        ctx.require((lm.win_size, lm.olap_size) == (win, olap), "target-sizes",
                    f"{lm.win_size}, {lm.olap_size} expected {win}, {olap}")
        # offset of the record from the reference time recorded in the data
        shift = secs_between(md.first_time, md.ref_time) * exact(fs)
        want = expected(Fraction(round(shift * 3), 3), n, win, olap)
        ctx.require((lm.n_wins, lm.index_offset) == (len(want), want[0][0]), "target-windows",
                    f"{lm.n_wins} windows from {lm.index_offset}, expected {len(want)} from {want[0][0]} "
                    f"relative to the recorded reference time")
        got = out.get_level(0)
        ctx.require(got.shape == (len(want), n_chans, win), "target-shape", str(got.shape))
        for i, (w, s) in enumerate(want):
            for c in range(n_chans):
                ctx.check(np.array_equal(got[i, c], c * 1e7 + floor_frac(Fraction(offset)) + s + np.arange(win)),
                          "target-contents", f"window {w}")
        ctx.check(md.chans == CHANS[:n_chans] and station_of(md) == STATION and list(md.fs) == [fs], "target-metadata", "")

    for target in (3, 10, 25):
        for min_size in (4, 9, 20):
            for prop in (0.25, 0.5, 0.75):
                for n in (60, 61, 100, 250):
                    for offset in (0, 1, 5, 100, 1000003):
                        n_chans = 1 + (n + target) % 3
                        ctx.case({"job": job, "target": target, "min_size": min_size, "prop": prop, "n": n, "offset": offset},
                                 one, target, min_size, prop, n, offset, n_chans)


def job_access(job, ctx):
    n_chans, n_wins = job["n_chans"], job["n_wins"]
    win, olap, n_freqs = 6, 2, 4

    def build(kind, n_levels, off, ref):
        rng = np.arange
        metas, data = [], {}
        for lvl in range(n_levels):
            wins = n_wins + lvl
            common = dict(fs=8.0 / 2**lvl, n_wins=wins, win_size=win, olap_size=olap, index_offset=off + lvl)
            size = win if kind == "win" else n_freqs + lvl
            arr = (1000.0 * lvl + 100 * rng(wins)[:, None, None] + 10 * rng(n_chans)[None, :, None] + rng(size)[None, None, :])
            if kind == "win":
                metas.append(W.WindowedLevelMetadata(**common))
                data[lvl] = arr
            else:
                metas.append(S.SpectraLevelMetadata(**common, n_freqs=size, freqs=rng(size).tolist()))
                data[lvl] = arr + 1j * (arr + 0.5)
        md = dict(fs=[m.fs for m in metas], chans=CHANS[:n_chans], n_levels=n_levels, first_time=ref, last_time=ref,
                  chans_metadata={c: chan_meta(c, i) for i, c in enumerate(CHANS[:n_chans])},
                  levels_metadata=metas, ref_time=ref, **STATION)
        if kind == "win":
            return W.WindowedData(W.WindowedMetadata(**md), data), data
        return S.SpectraData(S.SpectraMetadata(**md), data), data

    def windowed(n_levels, off):
        wd, data = build("win", n_levels, off, T0)
        for lvl in range(n_levels):
            arr, wins = data[lvl], n_wins + lvl
            ctx.check(np.array_equal(wd.get_level(lvl), arr), "get_level", f"{lvl}")
            for c in range(n_chans):
                ctx.check(np.array_equal(wd.get_chan(lvl, CHANS[c]), arr[:, c]), "get_chan", f"{lvl} {CHANS[c]}")
            for bad in set(["Bz", "ex", ""] + CHANS[n_chans:]):
                ctx.refuses(lambda: wd.get_chan(lvl, bad), "get_chan-refused", bad, ChannelNotFoundError)
            offset = off + lvl
            for i in range(-2, wins + 3):
                if 0 <= i < wins:
                    ctx.check(np.array_equal(wd.get_local(lvl, i), arr[i]), "get_local", f"level {lvl} local {i}")
                    ctx.check(np.array_equal(wd.get_global(lvl, i + offset), arr[i]), "get_global",
                              f"level {lvl} global {i + offset} offset {offset}")
                else:
                    ctx.refuses(lambda: wd.get_local(lvl, i), "get_local-range", f"local {i} of {wins}", ValueError)
                    ctx.refuses(lambda: wd.get_global(lvl, i + offset), "get_global-range",
                                f"global {i + offset}, windows {offset}..{offset + wins - 1}", ValueError)
            if offset > wins:
                ctx.refuses(lambda: wd.get_global(lvl, 0), "get_global-range", "global 0", ValueError)
        for lvl in (n_levels, n_levels + 1, -1):
            for fn in (wd.get_level, lambda x: wd.get_chan(x, CHANS[0]), lambda x: wd.get_local(x, 0),
                       lambda x: wd.get_global(x, off)):
                if lvl == -1 and fn is not wd.get_level:
                    continue
                ctx.refuses(lambda: fn(lvl), "level-range", f"level {lvl} of {n_levels}")

    def spectra(n_levels, off, ref):
        sd, data = build("spec", n_levels, off, ref)
        for lvl in range(n_levels):
            arr, wins = data[lvl], n_wins + lvl
            ctx.check(np.array_equal(sd.get_level(lvl), arr), "spectra-get_level", f"{lvl}")
            for c in range(n_chans):
                ctx.check(np.array_equal(sd.get_chan(lvl, CHANS[c]), arr[:, c]), "spectra-get_chan", f"{lvl}")
            for r in range(1, n_chans + 1):
                for order in itertools.permutations(range(n_chans), r):
                    got = sd.get_chans(lvl, [CHANS[c] for c in order])
                    ctx.check(np.array_equal(got, arr[:, list(order)]), "spectra-get_chans", f"{order}")
            for bad in set(["Bz", ""] + CHANS[n_chans:]):
                ctx.refuses(lambda: sd.get_chan(lvl, bad), "spectra-chan-refused", bad, ChannelNotFoundError)
                ctx.refuses(lambda: sd.get_chans(lvl, [CHANS[0], bad]), "spectra-chan-refused", bad, ChannelNotFoundError)
            for f in range(-2, n_freqs + lvl + 2):
                if 0 <= f < n_freqs + lvl:
                    ctx.check(np.array_equal(np.squeeze(sd.get_freq(lvl, f)), np.squeeze(arr[:, :, f])),
                              "spectra-get_freq", f"{f}")
                else:
                    ctx.refuses(lambda: sd.get_freq(lvl, f), "spectra-freq-range", f"{f}", ValueError)
            mag, phs = sd.get_mag_phs(lvl)
            ctx.check(np.allclose(mag * np.exp(1j * phs), arr) and np.all(np.abs(phs) <= np.pi + 1e-9), "spectra-mag-phs", "")
            mag, phs = sd.get_mag_phs(lvl, unwrap=True)
            ctx.check(np.allclose(mag * np.exp(1j * phs), arr) and (phs.shape[-1] < 2 or np.abs(np.diff(phs, axis=-1)).max() <= np.pi + 1e-9),
                      "spectra-unwrap", "")
            times = sd.get_timestamps(lvl)
            ctx.require(len(times) == wins, "spectra-timestamps", f"{len(times)}")
            inc = Fraction(win - olap) / Fraction(8.0 / 2**lvl)
            for i in range(wins):
                err = Fraction(times[i].value, 10**9) - (abs_secs(ref) + (off + lvl + i) * inc)
                ctx.check(abs(err) <= Fraction(20, 10**9), "spectra-timestamps", f"window {i} off by {float(err)} s")
        for lvl in (n_levels, n_levels + 2, -1, -n_levels):
            for fn in (sd.get_level, sd.get_timestamps, lambda x: sd.get_chan(x, CHANS[0]), lambda x: sd.get_freq(x, 0)):
                ctx.refuses(lambda: fn(lvl), "spectra-level-range", f"{lvl} of {n_levels}")

    for n_levels in (1, 2, 3):
        for off in (0, 1, 7, 100000):
            ctx.case({"job": job, "windowed": n_levels, "offset": off}, windowed, n_levels, off)
            for ref in (T0, T0_ODD):
                ctx.case({"job": job, "spectra": n_levels, "offset": off, "ref": ref.isoformat()}, spectra, n_levels, off, ref)
            for i in range(n_wins):
                for c in range(n_chans):
                    ctx.nontriv((n_levels, off, i, c))

    def starts(w, o, off, n, fs, ref):
        s = W.get_win_starts(ref, w, o, fs, n, off)
        e = W.get_win_ends(s, w, fs)
        p = 1 / exact(fs)
        ctx.require(len(s) == n and len(e) == n, "starts-length", "")
        for i in range(n):
            nominal = abs_secs(ref) + (off + i) * (w - o) * p
            tol = Fraction(5 + i, 10**9) + p / 10**6
            ctx.check(abs(Fraction(s[i].value, 10**9) - nominal) <= tol, "starts", f"window {i} {s[i]}")
            ctx.check(abs(Fraction(e[i].value, 10**9) - nominal - (w - 1) * p) <= tol, "ends", f"window {i} {e[i]}")

    for w, o in ((2, 1), (6, 2), (100, 75)):
        for off in (0, 3, 54321):
            for fs in (10.0, 0.1, 3.0, 128.0, 24000.0, 0.7):
                ctx.case({"job": job, "starts": [w, o], "offset": off, "fs": fs}, starts, w, o, off, n_wins, fs, T0_ODD)
