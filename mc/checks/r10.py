"""R10 window alignment"""
from fractions import Fraction

import numpy as np

from build import T0, T0_ODD, chan_meta, station_of, STATION, snapshot
from ref import time_at, ceil_frac, floor_frac, secs_between

import resistics.decimate as D
import resistics.time as T
import resistics.window as W

ID = "R10"
LEVEL = "exploration"
RULE = (
    "every window size x overlap x record offset from the reference time (aligned, fractional, days and years "
    "away) x record length x fs: window table, first/last window and windowed contents of ramp data compared "
    "with the windows derived in rational arithmetic; every pair of overlapping recordings compared on shared "
    "global windows; every combination of per-level lengths for early termination; "
    "non-trivial: distinct (fs, win, overlap, offset, length)"
)
ASSUMPTIONS = [
    "records start at or after the reference time (earlier ones are refused)",
    "sample grids off the window grid: a window starts with the sample at or just before its nominal start",
    "overlaps of zero are refused by the window metadata and not explored",
]
CHANS = ["Hy", "Ex", "Hz"]
FS = [10.0, 0.1, 3.0, 128.0, 24000.0, 0.7, 65536.0, 1 / 3]
FS_EXACT = {0.1: Fraction(1, 10), 0.7: Fraction(7, 10), 1 / 3: Fraction(1, 3)}


def exact(fs):
    return FS_EXACT.get(fs, Fraction(fs))


def BOUNDS(tier):
    return {"win_size": list(wins(tier)), "fs": FS, "length": "1 .. 2*win+2*increment", "far offsets": "1 day, 1 year, 10 years"}


def wins(tier):
    return range(2, 7) if tier == "quick" else range(2, 10)


def jobs(tier):
    for fs in FS:
        for win in wins(tier):
            yield {"kind": "table", "fs": fs, "win": win}
        yield {"kind": "windower", "fs": fs}
        yield {"kind": "shared", "fs": fs}
        yield {"kind": "far", "fs": fs}
        yield {"kind": "real", "fs": fs}
    yield {"kind": "levels"}


def level_meta(fs, offset, n, ref, style=0):
    p = 1 / exact(fs)
    first = time_at(ref, offset * p)
    if style == 0:
        last = time_at(first, (n - 1) * p)
    else:
        # as time processes date their data: with the rounded period
        from resistics.sampling import to_timedelta

        last = first + to_timedelta(1 / fs) * (n - 1)
    return D.DecimatedLevelMetadata(fs=fs, n_samples=n, first_time=first, last_time=last)


TOL = Fraction(1, 10**4)


def expected(offset, n, win, olap):
    """Global windows completely inside the record and their first samples"""
    inc = win - olap
    offset = Fraction(offset)
    w = max(0, ceil_frac((offset - TOL) / inc))
    out = []
    while w * inc + win - 1 <= offset + n - 1 + TOL:
        out.append((w, max(0, floor_frac(w * inc - offset + TOL))))
        w += 1
    return out


def run_job(job, ctx):
    globals()["job_" + job["kind"]](job, ctx)


def check_table(ctx, fs, offset, n, win, olap, ref, style):
    inc = win - olap
    meta = level_meta(fs, offset, n, ref, style)
    want = expected(offset, n, win, olap)
    if not want:
        # nothing fits: either says so or gives an empty table
        try:
            table = W.get_win_table(ref, meta, win, olap)
        except ValueError:
            return
        ctx.check(len(table) == 0, "windows-from-nothing", f"{len(table)} windows, none fits")
        return
    first, last = W.get_first_and_last_win(ref, meta, win, olap)
    ctx.require((first, last) == (want[0][0], want[-1][0]), "first-last-win",
                f"({first}, {last}) expected ({want[0][0]}, {want[-1][0]})")
    table = W.get_win_table(ref, meta, win, olap)
    ctx.require(len(table) == len(want), "table-length", f"{len(table)} != {len(want)}")
    ctx.check(table["global"].tolist() == [w for w, _ in want], "table-global", str(table["global"].tolist()))
    ctx.check(table["local"].tolist() == list(range(len(want))), "table-local", "")
    ctx.check(table["from_sample"].tolist() == [s for _, s in want], "table-from",
              f"{table['from_sample'].tolist()} expected {[s for _, s in want]}")
    ctx.check(table["to_sample"].tolist() == [s + win - 1 for _, s in want], "table-to", "")
    p = 1 / exact(fs)
    for i in {0, len(want) - 1}:
        for col, extra in (("win_start", 0), ("win_end", win - 1)):
            stamp = Fraction(table[col].iloc[i].value, 10**9)
            nominal = ref_secs(ref) + (want[i][0] * inc + extra) * p
            ctx.check(abs(stamp - nominal) <= Fraction(5, 10**9) * (2 + i) + p / 10**6, "table-times",
                      f"{col} of window {want[i][0]} off by {float(stamp - nominal)} s")
    ctx.outcome((win, olap, tuple(want)))


def ref_secs(ref):
    from ref import abs_secs
    return abs_secs(ref)


def job_table(job, ctx):
    fs, win = job["fs"], job["win"]
    for olap in range(1, win):
        inc = win - olap
        offsets = [Fraction(k) for k in range(0, inc + 2)]
        offsets += [Fraction(k) + Fraction(1, 3) for k in range(0, inc + 1)] + [Fraction(1, 2)]
        for offset in offsets:
            for n in range(1, 2 * win + 2 * inc + 1):
                for style in (0, 1):
                    if ctx.tier == "quick" and style and (n + inc) % 2:
                        continue
                    ref = T0 if (n + win) % 2 else T0_ODD
                    ctx.case({"job": job, "olap": olap, "offset": str(offset), "n": n, "style": style},
                             check_table, ctx, fs, offset, n, win, olap, ref, style)


def job_far(job, ctx):
    """The record starts long after the reference time"""
    fs = job["fs"]
    f = exact(fs)
    for win, olap in ((4, 1), (5, 2), (8, 6), (7, 1), (100, 75), (128, 32)):
        inc = win - olap
        for days in (1, 366, 3660):
            base = floor_frac(days * 86400 * f)
            for d in range(-1, min(inc, 6) + 1):
                for frac in (Fraction(0), Fraction(1, 2)):
                    for n in (win, win + 1, win + inc - 1, win + inc, 3 * win + 2, 12 * win):
                        for k in (0, base // inc * inc):
                            offset = k + base % 1 + d + inc + frac
                            if k == 0:
                                continue
                            ctx.case({"job": job, "win": win, "olap": olap, "offset": str(offset), "n": n},
                                     check_table, ctx, fs, offset, n, win, olap, T0, (n + d) % 2)


def dec_data(fs_levels, offsets, lengths, n_chans, ref):
    """Ramp data: value = channel*1e7 + sample number since the reference time"""
    metas, data = [], {}
    for lvl, (fs, off, n) in enumerate(zip(fs_levels, offsets, lengths)):
        metas.append(level_meta(fs, off, n, ref, lvl % 2))
        k = floor_frac(Fraction(off)) + np.arange(n)
        data[lvl] = np.array([c * 1e7 + k for c in range(n_chans)])
    meta = D.DecimatedMetadata(
        fs=list(fs_levels), chans=CHANS[:n_chans], n_levels=len(metas), first_time=metas[0].first_time,
        last_time=metas[0].last_time, chans_metadata={c: chan_meta(c, i) for i, c in enumerate(CHANS[:n_chans])},
        levels_metadata=metas, **STATION,
    )
    return D.DecimatedData(meta, data)


def check_windowed(ctx, dd, out, params, wants, ref, n_chans, fs_levels, offsets):
    """wants: per level the expected windows of the levels that must be present"""
    md = out.metadata
    ctx.require(md.n_levels == len(wants) and sorted(out.data) == list(range(len(wants)))
                and len(md.levels_metadata) == len(wants), "windowed-levels",
                f"{md.n_levels} levels, data {sorted(out.data)}, expected {len(wants)}")
    ctx.check(list(md.fs) == list(fs_levels[: len(wants)]), "windowed-fs", f"fs {md.fs} for {len(wants)} levels")
    ctx.check(md.chans == CHANS[:n_chans] and md.n_chans == n_chans and station_of(md) == STATION
              and md.chans_metadata == dd.metadata.chans_metadata, "windowed-metadata", "")
    ctx.check(abs(secs_between(md.ref_time, ref)) == 0, "windowed-ref_time", f"{md.ref_time.isoformat()}")
    ctx.check(md.first_time == dd.metadata.first_time and md.last_time == dd.metadata.last_time, "windowed-dates", "")
    for lvl, want in enumerate(wants):
        win, olap = params.win_sizes[lvl], params.olap_sizes[lvl]
        lm = md.levels_metadata[lvl]
        got = out.get_level(lvl)
        ctx.require(got.shape == (len(want), n_chans, win), "windowed-shape",
                    f"level {lvl}: {got.shape}, expected {(len(want), n_chans, win)}")
        ctx.check(got.dtype == dd.data[lvl].dtype, "windowed-dtype", str(got.dtype))
        ctx.check((lm.fs, lm.n_wins, lm.win_size, lm.olap_size, lm.index_offset)
                  == (fs_levels[lvl], len(want), win, olap, want[0][0]), "windowed-level-metadata",
                  f"level {lvl}: {lm.json()} expected offset {want[0][0]}")
        base = floor_frac(Fraction(offsets[lvl]))
        for i, (w, s) in enumerate(want):
            for c in range(n_chans):
                ctx.check(np.array_equal(got[i, c], c * 1e7 + base + s + np.arange(win)), "windowed-contents",
                          f"level {lvl} window {w} channel {c}: {got[i, c].tolist()} expected from {base + s}")


def job_windower(job, ctx):
    fs = job["fs"]

    def one(win, olap, offset, n, n_chans, ref):
        want = expected(offset, n, win, olap)
        dd = dec_data([fs], [offset], [n], n_chans, ref)
        before = snapshot(dd)
        params = W.WindowParameters(n_levels=1, min_n_wins=1, win_sizes=[win], olap_sizes=[olap])
        if not want:
            try:
                out = W.Windower().run(ref, params, dd)
            except Exception:
                return
            ctx.check(out.metadata.n_levels == 0, "windowed-nothing", "levels without a complete window")
            return
        out = W.Windower().run(ref, params, dd)
        check_windowed(ctx, dd, out, params, [want], ref, n_chans, [fs], [offset])
        ctx.check(snapshot(dd) == before, "windower-changed-input", "")

    for win in ((2, 3, 5) if ctx.tier == "quick" else (2, 3, 4, 5, 6, 8)):
        for olap in range(1, win):
            inc = win - olap
            for offset in (0, 1, inc, Fraction(1, 2), 7 * inc + 1):
                for n in sorted({1, win - 1, win, win + 1, win + inc, 2 * win + inc + 1}):
                    for n_chans in (1, 2, 3):
                        ref = T0 if n_chans == 2 else T0_ODD
                        ctx.case({"job": job, "win": win, "olap": olap, "offset": str(offset), "n": n, "n_chans": n_chans},
                                 one, win, olap, offset, n, n_chans, ref)


def job_shared(job, ctx):
    """Two recordings of one continuous signal give identical shared global windows"""
    fs = job["fs"]

    def one(win, olap, o1, o2, n):
        outs = []
        for o in (o1, o2):
            params = W.WindowParameters(n_levels=1, min_n_wins=1, win_sizes=[win], olap_sizes=[olap])
            out = W.Windower().run(T0, params, dec_data([fs], [o], [n], 2, T0))
            off = out.metadata.levels_metadata[0].index_offset
            outs.append({off + i: out.get_level(0)[i] for i in range(out.metadata.levels_metadata[0].n_wins)})
        shared = set(outs[0]) & set(outs[1])
        want = {w for w, _ in expected(o1, n, win, olap)} & {w for w, _ in expected(o2, n, win, olap)}
        ctx.check(shared == want, "shared-set", f"{sorted(shared)} expected {sorted(want)}")
        for w in shared:
            ctx.check(np.array_equal(outs[0][w], outs[1][w]), "shared-contents",
                      f"global window {w} differs between recordings starting at {o1} and {o2}")

    for win, olap in ((4, 1), (4, 3), (6, 4), (8, 2)):
        for start in (0, 1000):
            for o1 in range(0, 9):
                for d in (range(0, 9) if ctx.tier != "quick" else (0, 1, 3, 5)):
                    ctx.case({"job": job, "win": win, "olap": olap, "o1": start + o1, "o2": start + o1 + d},
                             one, win, olap, start + o1, start + o1 + d, 30)


def job_real(job, ctx):
    """Recordings dated by the real readers' arithmetic: Subsection and Decimator in front"""
    fs = job["fs"]
    total = 400
    k = np.arange(total)
    meta = T.TimeMetadata(
        fs=fs, chans=CHANS[:2], n_samples=total, first_time=T0,
        last_time=time_at(T0, (total - 1) / exact(fs)),
        chans_metadata={c: chan_meta(c, i) for i, c in enumerate(CHANS[:2])}, **STATION,
    )
    full = T.TimeData(meta, np.array([k * 1.0, k + 1e7]))
    params = D.DecimationParameters(fs=fs, n_levels=1, per_level=1, min_samples=5, eval_freqs=[fs / 4], dec_factors=[1])

    def one(a, b, win, olap):
        sub = T.Subsection(
            from_time=time_at(T0, (a - Fraction(1, 4)) / exact(fs)).isoformat() if a else T0.isoformat(),
            to_time=time_at(T0, (b + Fraction(1, 4)) / exact(fs)).isoformat(),
        ).run(full)
        ctx.require(sub.metadata.n_samples == b - a + 1, "subsection", f"{sub.metadata.n_samples}")
        dd = D.Decimator().run(params, sub)
        want = expected(a, b - a + 1, win, olap)
        wp = W.WindowParameters(n_levels=1, min_n_wins=1, win_sizes=[win], olap_sizes=[olap])
        out = W.Windower().run(T0, wp, dd)
        lm = out.metadata.levels_metadata[0]
        ctx.require((lm.index_offset, lm.n_wins) == (want[0][0], len(want)), "real-windows",
                    f"offset {lm.index_offset}, {lm.n_wins} windows, expected {want[0][0]}, {len(want)}")
        for i, (w, s) in enumerate(want):
            ctx.check(np.array_equal(out.get_level(0)[i, 0], a + s + np.arange(win)), "real-contents", f"window {w}")

    for win, olap in ((10, 2), (16, 12), (9, 8), (20, 5)):
        inc = win - olap
        for a in (0, 1, inc - 1, inc, 5 * inc, 5 * inc + 1):
            for extra in (0, 1, inc - 1, inc, 3 * inc + 2):
                ctx.case({"job": job, "win": win, "olap": olap, "from": a, "to": a + win - 1 + extra + inc},
                         one, a, a + win - 1 + extra + inc, win, olap)


def job_levels(job, ctx):
    """Every pattern of window counts over levels against min_n_wins"""
    win, olap = 6, 2
    inc = win - olap

    def one(counts, min_n, offsets, n_chans):
        fs_levels = [12.0 / 2**i for i in range(len(counts))]
        lengths = [win + (c - 1) * inc if c else win - 1 for c in counts]
        wants = [expected(o, n, win, olap) for o, n in zip(offsets, lengths)]
        keep = []
        for w in wants:
            if len(w) < min_n:
                break
            keep.append(w)
        params = W.WindowParameters(n_levels=len(counts), min_n_wins=min_n, win_sizes=[win] * len(counts),
                                    olap_sizes=[olap] * len(counts))
        dd = dec_data(fs_levels, offsets, lengths, n_chans, T0)
        if not keep:
            try:
                out = W.Windower().run(T0, params, dd)
            except Exception:
                return
            ctx.check(out.metadata.n_levels == 0, "no-level", "")
            return
        out = W.Windower().run(T0, params, dd)
        check_windowed(ctx, dd, out, params, keep, T0, n_chans, fs_levels, offsets)

    import itertools

    top = 3
    alpha = (0, 1, 2, 3, 5) if ctx.tier == "quick" else (0, 1, 2, 3, 4, 5, 7)
    for depth in range(1, top + 1):
        for counts in itertools.product(alpha, repeat=depth):
            for min_n in (1, 2, 3):
                for off in (0, inc * 3):
                    ctx.case({"job": job, "counts": counts, "min": min_n, "offset": off},
                             one, counts, min_n, [off] * depth, 1 + (sum(counts) % 3))
