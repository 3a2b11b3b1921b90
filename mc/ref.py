"""Reference helpers: exact rational times, independent of resistics.sampling"""
from decimal import Decimal
from fractions import Fraction
from datetime import datetime

import numpy as np
from attotime import attodatetime, attotimedelta

EPOCH = attodatetime(2000, 1, 1)


def delta_of(seconds):
    """attotimedelta of an exact number of seconds (int, Fraction or str)"""
    seconds = Fraction(seconds)
    whole = seconds.numerator // seconds.denominator
    rest = (seconds - whole) * 10**9
    nanos = Decimal(rest.numerator) / Decimal(rest.denominator)
    return attotimedelta(seconds=whole, nanoseconds=nanos)


def seconds_of(delta):
    """Exact seconds of an attotimedelta"""
    return (
        Fraction(delta.days) * 86400
        + Fraction(delta.seconds)
        + Fraction(delta.microseconds, 10**6)
        + Fraction(delta.nanoseconds) / 10**9
    )


def time_at(t0, seconds):
    return t0 + delta_of(seconds)


def secs_between(t1, t0):
    """Exact t1 - t0 in seconds from the date fields"""
    return abs_secs(t1) - abs_secs(t0)


def abs_secs(t):
    base = datetime(t.year, t.month, t.day, t.hour, t.minute, t.second)
    whole = base - datetime(1970, 1, 1)
    return (
        Fraction(whole.days) * 86400
        + Fraction(whole.seconds)
        + Fraction(t.microsecond, 10**6)
        + Fraction(Decimal(t.nanosecond)) / 10**9
    )


def close_time(t, t0, seconds, tol):
    """Is t within tol seconds of t0 + seconds"""
    return abs(secs_between(t, t0) - Fraction(seconds)) <= Fraction(tol)


def ceil_frac(x):
    return -((-x.numerator) // x.denominator)


def floor_frac(x):
    return x.numerator // x.denominator


def linfrac(vals):
    return [Fraction(float(x)) for x in vals]
