"""Builders for small recordings used by several checks"""
import json
from fractions import Fraction

import numpy as np
from attotime import attodatetime

from ref import delta_of, time_at, secs_between

import resistics.time as T

T0 = attodatetime(2021, 1, 1)
T0_ODD = attodatetime(2020, 2, 29, 23, 59, 59, 999_999, 750)

STATION = dict(
    system="sys9", serial="77", wgs84_latitude=12.25, wgs84_longitude=-3.5,
    easting=101.5, northing=-7.25, elevation=33.0,
)
KNOWN_CHANS = ("Ex", "Ey", "E1", "E2", "E3", "E4", "Hx", "Hy", "Hz", "Bx", "By", "Bz")
STATION_KEYS = sorted(STATION)


def chan_meta(name, idx=0):
    return T.ChanMetadata(
        name=name, data_files=[f"{name}.dat"], chan_source="C%d" % idx, sensor="MFS%02d" % idx,
        serial=str(100 + idx), gain1=2.0 + idx, scaling=0.5, chopper=bool(idx % 2),
        dipole_dist=10.0 + idx, **({} if name in KNOWN_CHANS else {"chan_type": "unknown"}),
    )


def chans_meta(chans):
    """Metadata per channel, deliberately not in the order of the data's rows"""
    pairs = [(c, chan_meta(c, i)) for i, c in enumerate(chans)]
    return dict(pairs[1:] + pairs[:1]) if len(pairs) != 2 else dict(pairs[::-1])


def time_metadata(fs, n, chans, t0=T0, station=STATION, **kwargs):
    return T.TimeMetadata(
        fs=fs, chans=list(chans), n_samples=n, first_time=t0,
        last_time=time_at(t0, Fraction(n - 1) / Fraction(fs)),
        chans_metadata=chans_meta(chans),
        **station, **kwargs,
    )


def time_data(fs, data, chans, t0=T0, **kwargs):
    data = np.array(data)
    return T.TimeData(time_metadata(fs, data.shape[1], chans, t0, **kwargs), data)


def station_of(metadata):
    return {k: getattr(metadata, k) for k in STATION_KEYS}


def snapshot(obj):
    """Everything observable about a data object, for change detection"""
    data = obj.data
    if isinstance(data, dict):
        arrays = tuple(
            (k, str(v.dtype), v.shape, np.ascontiguousarray(v).tobytes())
            for k, v in sorted(data.items())
        )
    else:
        arrays = (str(data.dtype), data.shape, np.ascontiguousarray(data).tobytes())
    return (obj.metadata.json(), arrays)


def dating_ok(ctx, metadata, fs, t0, start, n, key, tol=Fraction(1, 10**5)):
    """metadata must date n samples starting at sample number start of (fs, t0)"""
    period = 1 / Fraction(fs)
    tol = tol * period + Fraction(1, 10**17)
    ok = ctx.check(
        metadata.n_samples == n, key + "-n_samples", f"n_samples {metadata.n_samples} != {n}"
    )
    e1 = secs_between(metadata.first_time, t0) - start * period
    e2 = secs_between(metadata.last_time, t0) - (start + n - 1) * period
    ok &= ctx.check(
        abs(e1) <= tol, key + "-first_time",
        f"first_time {metadata.first_time.isoformat()} off by {float(e1/period)} samples",
    )
    ok &= ctx.check(
        abs(e2) <= tol, key + "-last_time",
        f"last_time {metadata.last_time.isoformat()} off by {float(e2/period)} samples",
    )
    return ok


def _level_metadata(md_cls, lvl_cls, levels, chans, ref, **kwargs):
    return md_cls(
        fs=[m.fs for m in levels], chans=list(chans), n_levels=len(levels), first_time=ref, last_time=ref,
        chans_metadata=chans_meta(chans),
        levels_metadata=levels, ref_time=ref, **STATION, **kwargs,
    )


def windowed_data(arrays, fs, chans, ref=T0, olap=1, offset=0):
    """WindowedData from one (n_wins, n_chans, win_size) array per level"""
    import resistics.window as W

    levels = [
        W.WindowedLevelMetadata(
            fs=f, n_wins=a.shape[0], win_size=a.shape[2], olap_size=olap, index_offset=offset + 3 * i
        )
        for i, (a, f) in enumerate(zip(arrays, fs))
    ]
    md = _level_metadata(W.WindowedMetadata, W.WindowedLevelMetadata, levels, chans, ref)
    return W.WindowedData(md, dict(enumerate(arrays)))


def spectra_data(arrays, fs, freqs, chans, ref=T0, offset=0, win=16, olap=4):
    """SpectraData from one (n_wins, n_chans, n_freqs) array per level"""
    import resistics.spectra as S

    levels = [
        S.SpectraLevelMetadata(
            fs=f, n_wins=a.shape[0], win_size=win, olap_size=olap, index_offset=offset + 3 * i,
            n_freqs=a.shape[2], freqs=list(map(float, fr)),
        )
        for i, (a, f, fr) in enumerate(zip(arrays, fs, freqs))
    ]
    md = _level_metadata(S.SpectraMetadata, S.SpectraLevelMetadata, levels, chans, ref)
    return S.SpectraData(md, dict(enumerate(arrays)))
