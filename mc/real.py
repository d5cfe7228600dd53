"""Bridge between model and implementation: build real objects, read back canonical observations."""

from __future__ import annotations

import datetime as dt
import functools
import math

import numpy as np
import pandas as pd

from . import cal
from .engine import Mismatch

UNIT = {"w": "MW", "q": "MWh", "p": "Eur/MWh", "r": "Eur", "duration": "h"}


def index(tz, freq, sod, start: str, n: int) -> pd.DatetimeIndex:
    return pd.date_range(f"{start} {sod}", periods=n, freq=freq, tz=tz)


def secs(i: pd.DatetimeIndex) -> list[int]:
    return [int(v) for v in i.as_unit("s").asi8] if len(i) else []


def ts_sec(ts: pd.Timestamp) -> int:
    """instant of timestamp on UTC (or wall, if naive) axis; must be whole second"""
    v = ts.as_unit("ns").value if hasattr(ts, "as_unit") else ts.value
    if v % 10**9:
        return v / 10**9
    return v // 10**9


def stamp(s, tz) -> pd.Timestamp:
    ts = pd.Timestamp(s, unit="s")
    return ts if tz is None else ts.tz_localize("UTC").tz_convert(tz)


def tzname(tz):
    return None if tz is None else str(tz)


def freqname(i: pd.DatetimeIndex):
    f = i.freqstr
    return {"QS-JAN": "QS", "YS-JAN": "YS", "QS-OCT": "QS", "QS-APR": "QS", "QS-JUL": "QS"}.get(f, f)


def bounds(tz, freq, sod, start, n):
    """Model boundaries for index(...) with same arguments."""
    d = dt.date.fromisoformat(start)
    return cal.periods(cal.combine(d, sod, tz), freq, tz, n)


def mags(s) -> list[float]:
    """magnitudes of (pint-)series as floats"""
    if hasattr(s.dtype, "units"):
        s = s.pint.magnitude
    return [float(v) for v in np.asarray(s.values if hasattr(s, "values") else s)]


def unit_of(s):
    return str(s.dtype.units) if hasattr(s.dtype, "units") else None


@functools.lru_cache(None)
def unit_obj(name):
    from portfolyo import tools

    return tools.unit.ureg.Unit(name)


def same_unit(s, name) -> bool:
    """series has exactly this unit"""
    if name is None:
        return not hasattr(s.dtype, "units")
    return hasattr(s.dtype, "units") and unit_is(str(s.dtype.units), name)


@functools.lru_cache(None)
def unit_is(u: str, name: str) -> bool:
    """1 u == 1 name (same dimension, conversion factor 1)"""
    from portfolyo import tools

    try:
        return abs(tools.unit.Q_(1.0, u).to(unit_obj(name)).magnitude - 1) < 1e-12
    except Exception:
        return False


def close(a: float, b: float, rel=1e-9, abs_=1e-9) -> bool:
    if a is None or b is None:
        return a is b
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))


def allclose(xs, ys, **kw) -> bool:
    return len(xs) == len(ys) and all(close(x, y, **kw) for x, y in zip(xs, ys))


def fmt(xs, n=8):
    return "[" + ", ".join(f"{x:.6g}" if isinstance(x, float) else str(x) for x in xs[:n]) + (", .." if len(xs) > n else "") + "]"


def r12(x):
    """canonical float for hashing"""
    if isinstance(x, float):
        if math.isnan(x):
            return "nan"
        return float(f"{x:.10g}") + 0.0
    return x
