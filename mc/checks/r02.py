"""R02 dates survive conversion, text and JSON"""
import json
from datetime import datetime, timedelta
from decimal import Decimal
from fractions import Fraction

import pandas as pd
from attotime import attodatetime, attotimedelta

from ref import abs_secs, seconds_of

import resistics.sampling as S
import resistics.time as T
import resistics.decimate as D
import resistics.window as W
import resistics.spectra as P
from resistics.project import ProjectMetadata

ID = "R02"
LEVEL = "exploration"
RULE = (
    "cartesian product of boundary values of date, time, microsecond and sub-microsecond "
    "fields; each instant goes through every representation and every metadata class; "
    "non-trivial: distinct instants, representations and durations"
)
ASSUMPTIONS = [
    "naive (timezone free) dates between 1900 and 2262",
    "instants are multiples of 10 attoseconds: attotime (third party) computes with 28 digits",
]

DAYS = [
    (1900, 1, 1), (1969, 12, 31), (1970, 1, 1), (1999, 12, 31), (2000, 2, 29), (2001, 3, 1),
    (2016, 2, 29), (2019, 2, 28), (2020, 12, 31), (2021, 10, 10), (2038, 1, 19),
    (2100, 2, 28), (2262, 1, 1),
]
TIMES = [(0, 0, 0), (0, 0, 1), (23, 59, 59), (12, 34, 56), (9, 5, 7), (10, 0, 0)]
MICROS = [0, 1, 61, 1000, 100_000, 123_456, 999_999, 999_000, 35]
NANOS = [
    Decimal(0), Decimal(1), Decimal(100), Decimal(999), Decimal(40),
    Decimal("35.156250000"), Decimal("0.00000001"), Decimal("999.99999999"),
    Decimal("0.5"), Decimal("7.000000100"),
]


def BOUNDS(tier):
    return {
        "instants": len(DAYS) * len(TIMES) * len(MICROS) * len(NANOS),
        "durations": len(durations(tier)),
        "metadata_classes": 6,
    }


def durations(tier):
    vals = [0, 1, 2, 59, 60, 3600, 86399, 86400, 86401, 1e6, 3.5e7, 0.5, 0.25, 0.1, 0.2, 0.3]
    for fs in list(range(2, 60 if tier == "quick" else 600)) + [
        100, 128, 256, 500, 512, 1000, 1024, 4096, 16384, 24000, 65536, 131072, 1e6, 1e9,
    ]:
        vals.extend([1 / fs, 1 + 1 / fs, 86400 + 1 / fs])
    # below a nanosecond, and such a part beside whole microseconds
    small = [2.0**-k for k in range(18, 43)] + [k * 1.25e-11 for k in range(1, 90, 1 if tier != "quick" else 4)]
    vals.extend(small)
    vals.extend([base + x for base in (1e-6, 0.25, 3.000001, 61.0) for x in small])
    return vals + [-x for x in vals if x < 10]


def jobs(tier):
    out = [{"kind": "day", "day": i, "time": j} for i in range(len(DAYS)) for j in range(len(TIMES))]
    if tier == "quick":
        out = [x for x in out if (x["day"] + x["time"]) % 2 == 0 or x["day"] in (4, 8, 9)]
    out.append({"kind": "durations"})
    return out


BASE = dict(chans=["Ex", "Hy"], n_levels=1)
CHM = {"Ex": {"name": "Ex"}, "Hy": {"name": "Hy"}}


def containers(t, t2):
    lvl = {"fs": 1.0, "n_wins": 3, "win_size": 4, "olap_size": 1, "index_offset": 0}
    yield T.TimeMetadata, dict(
        fs=10, chans=["Ex", "Hy"], n_samples=3, first_time=t, last_time=t2, chans_metadata=CHM
    ), ("first_time", "last_time")
    yield D.DecimatedMetadata, dict(
        fs=[1.0], first_time=t, last_time=t2, chans_metadata=CHM, **BASE,
        levels_metadata=[dict(fs=1.0, n_samples=2, first_time=t, last_time=t2)],
    ), ("first_time", "last_time")
    yield W.WindowedMetadata, dict(
        fs=[1.0], first_time=t, last_time=t2, ref_time=t, chans_metadata=CHM, **BASE,
        levels_metadata=[lvl],
    ), ("first_time", "last_time", "ref_time")
    yield P.SpectraMetadata, dict(
        fs=[1.0], first_time=t, last_time=t2, ref_time=t2, chans_metadata=CHM, **BASE,
        levels_metadata=[dict(n_freqs=1, freqs=[0.1], **lvl)],
    ), ("first_time", "last_time", "ref_time")
    yield ProjectMetadata, dict(ref_time=t), ("ref_time",)
    yield D.DecimatedLevelMetadata, dict(
        fs=1.0, n_samples=2, first_time=t, last_time=t2
    ), ("first_time", "last_time")


def same(a, b):
    return isinstance(a, attodatetime) and a == b and abs_secs(a) == abs_secs(b)


def run_job(job, ctx):
    if job["kind"] == "durations":
        return run_durations(ctx)
    day, tm = DAYS[job["day"]], TIMES[job["time"]]

    def instant(us, ns):
        t = attodatetime(*day, *tm, us, ns)
        text = S.datetime_to_string(t)
        ctx.check(same(S.datetime_from_string(text), t), "text-roundtrip", f"{text}")
        ctx.check(same(S.to_datetime(text), t), "to_datetime-highres-text", f"{text}")
        ctx.check(same(S.HighResDateTime.validate(t), t), "validate-highres", f"{text}")
        ctx.check(same(S.HighResDateTime.validate(text), t), "validate-text", f"{text}")
        # text is ordered like time and unique
        ctx.outcome(text)
        stamp = S.to_timestamp(t)
        err = abs_secs(t) - abs_secs(S.to_datetime(stamp))
        ctx.check(
            0 <= err < Fraction(1, 10**9), "to_timestamp", f"{text} -> {stamp}"
        )
        if ns == int(ns):
            # exact to the nanosecond: every pandas representation must agree
            iso = f"{day[0]:04d}-{day[1]:02d}-{day[2]:02d} {tm[0]:02d}:{tm[1]:02d}:{tm[2]:02d}"
            frac = f".{us:06d}{int(ns):03d}"
            reps = [
                iso + frac, iso.replace(" ", "T") + frac, pd.Timestamp(iso + frac),
            ]
            if ns == 0:
                reps.append(datetime(*day, *tm, us))
                reps.append(iso + f".{us:06d}")
                if us == 0:
                    reps.append(iso)
                    if tm == (0, 0, 0):
                        reps.append(iso[:10])
            for rep in reps:
                got = S.to_datetime(rep)
                ctx.check(same(got, t), "to_datetime", f"{rep!r} -> {got.isoformat()}")
                got = S.HighResDateTime.validate(rep)
                ctx.check(same(got, t), "validate", f"{rep!r} -> {got.isoformat()}")
            back = S.to_timestamp(t)
            ctx.check(back == pd.Timestamp(iso + frac), "to_timestamp-exact", f"{back}")

    def stored(us, ns):
        t = attodatetime(*day, *tm, us, ns)
        t2 = t + attotimedelta(seconds=1, nanoseconds=Decimal("3.00000007"))
        for cls, kwargs, fields in containers(t, t2):
            obj = cls(**kwargs)
            text = obj.json()
            back = cls.parse_raw(text)
            third = cls(**json.loads(text))
            fourth = cls(**obj.dict())
            for name in fields:
                want = kwargs[name]
                for o, how in ((obj, "init"), (back, "json"), (third, "dict of json"), (fourth, "dict")):
                    got = getattr(o, name)
                    ctx.check(
                        same(got, want), f"{cls.__name__}.{name}",
                        f"{how}: {want.isoformat()} -> {got.isoformat()}",
                    )
            if hasattr(obj, "levels_metadata") and hasattr(obj.levels_metadata[0], "first_time"):
                ctx.check(
                    same(back.levels_metadata[0].first_time, t)
                    and same(back.levels_metadata[0].last_time, t2),
                    f"{cls.__name__}.levels", "level dates changed",
                )

    for us in MICROS:
        for ns in NANOS:
            ctx.case(f"{day} {tm} {us} {ns}", instant, us, ns)
    heavy = [(us, ns) for us in (0, 61, 999_999) for ns in (NANOS if ctx.tier != "quick" else NANOS[3:8])]
    for us, ns in heavy:
        ctx.case(f"stored {day} {tm} {us} {ns}", stored, us, ns)


def run_durations(ctx):
    def one(x):
        d = S.to_timedelta(x)
        err = abs(seconds_of(d) - Fraction(x))
        lim = Fraction(1, 10**13) + abs(Fraction(x)) * Fraction(4, 2**52)
        ctx.check(err <= lim, "to_timedelta-float", f"{x} s -> {seconds_of(d)} err {float(err)}")
        a, b = S.to_seconds(d)
        ctx.check(
            abs(Fraction(a) + Fraction(b) - seconds_of(d))
            <= (Fraction(1, 10**15) if x >= 0 else Fraction(5, 10**11))
            + abs(Fraction(x)) * Fraction(4, 2**52),
            "to_seconds", f"{x} -> {a}, {b}",
        )
        ctx.check(x < 0 or a % 86400 == 0 and 0 <= b < 86400.0000001, "to_seconds-split", f"{x} -> {a}, {b}")

    for x in durations(ctx.tier):
        ctx.case(f"duration {x!r}", one, x)

    def exact(days, secs, us, ns):
        total = Fraction(days * 86400 + secs) + Fraction(us, 10**6) + Fraction(ns, 10**9)
        td = pd.Timedelta(days=days, seconds=secs, microseconds=us, nanoseconds=ns)
        got = seconds_of(S.to_timedelta(td))
        ctx.check(got == total, "to_timedelta-pandas", f"{td} -> {float(got)}")
        if ns == 0:
            td = timedelta(days=days, seconds=secs, microseconds=us)
            got = seconds_of(S.to_timedelta(td))
            ctx.check(got == total, "to_timedelta-python", f"{td} -> {float(got)}")
        if us == 0 and ns == 0:
            got = seconds_of(S.to_timedelta(days * 86400 + secs))
            ctx.check(got == total, "to_timedelta-int", f"{total} -> {float(got)}")

    for days in (0, 1, 2, 366, -1, -3):
        for secs in (0, 1, 59, 3600, 86399):
            for us in (0, 1, 999_999, 500_000):
                for ns in (0, 1, 999, 500):
                    ctx.case(f"{days}d {secs}s {us}us {ns}ns", exact, days, secs, us, ns)
