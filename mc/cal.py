"""Reference calendar: delivery periods from first principles (stdlib datetime + zoneinfo only).

Instants are integers: seconds since epoch on the UTC axis (tz-aware) or on the wall-clock axis (tz=None).
"""

from __future__ import annotations

import bisect
import datetime as dt
import functools
from zoneinfo import ZoneInfo

EPOCH = dt.datetime(1970, 1, 1)
MONTHS = ["JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC"]


@functools.lru_cache(None)
def zone(tz):
    return ZoneInfo(tz)


def naive_secs(d: dt.datetime) -> int:
    td = d - EPOCH
    return td.days * 86400 + td.seconds


@functools.lru_cache(None)
def local2sec(d: dt.datetime, tz, fold=0) -> int:
    """Instant of wall time d in tz (must exist unless handled by caller)."""
    if tz is None:
        return naive_secs(d)
    off = d.replace(tzinfo=zone(tz), fold=fold).utcoffset()
    return naive_secs(d - off)


@functools.lru_cache(None)
def sec2local(s: int, tz) -> dt.datetime:
    if tz is None:
        return EPOCH + dt.timedelta(seconds=s)
    a = dt.datetime.fromtimestamp(s, dt.timezone.utc).astimezone(zone(tz))
    return a.replace(tzinfo=None, fold=0)


def utcoffset(s: int, tz) -> int:
    """offset (s) at instant s."""
    if tz is None:
        return 0
    a = dt.datetime.fromtimestamp(s, dt.timezone.utc).astimezone(zone(tz))
    return int(a.utcoffset().total_seconds())


def parse_freq(freq: str):
    """-> (base, anchor month)"""
    if "-" in freq:
        base, mon = freq.split("-")
        return base, MONTHS.index(mon) + 1
    return freq, 1


FIXED = {"15min": 900, "h": 3600}
MONTHLEN = {"MS": 1, "QS": 3, "YS": 12}


def rank(freq):
    return ["15min", "h", "D", "MS", "QS", "YS"].index(parse_freq(freq)[0])


def floor_date(d: dt.date, freq: str) -> dt.date:
    """First day of the day-or-longer period containing date d."""
    base, anchor = parse_freq(freq)
    if base == "D":
        return d
    n = MONTHLEN[base]
    m = d.year * 12 + (d.month - 1)
    m = (m - (anchor - 1)) // n * n + (anchor - 1)
    return dt.date(m // 12, m % 12 + 1, 1)


def add_date(d: dt.date, freq: str, k: int = 1) -> dt.date:
    base, _ = parse_freq(freq)
    if base == "D":
        return d + dt.timedelta(days=k)
    m = d.year * 12 + (d.month - 1) + k * MONTHLEN[base]
    return dt.date(m // 12, m % 12 + 1, d.day)


def sod_time(sod: str) -> dt.time:
    h, m = sod.split(":")[:2]
    return dt.time(int(h), int(m))


def combine(d: dt.date, sod: str, tz) -> int:
    return local2sec(dt.datetime.combine(d, sod_time(sod)), tz)


def right(s: int, freq: str, tz) -> int:
    """End of the period that starts at s."""
    base, _ = parse_freq(freq)
    if base in FIXED:
        return s + FIXED[base]
    loc = sec2local(s, tz)
    d = add_date(loc.date(), freq, 1)
    return local2sec(dt.datetime.combine(d, loc.time()), tz)


def periods(start: int, freq: str, tz, n: int):
    """n consecutive periods starting at s -> list of starts + final end (n+1 boundaries)."""
    out = [start]
    for _ in range(n):
        out.append(right(out[-1], freq, tz))
    return out


def floor(s: int, freq: str, sod: str, tz) -> int:
    """Latest period start at or before s."""
    base, _ = parse_freq(freq)
    if base in FIXED:
        # period starts are on the wall-clock grid; offsets are multiples of 15 min here
        step = FIXED[base]
        off = utcoffset(s, tz)
        return (s + off) // step * step - off
    loc = sec2local(s, tz)
    d = floor_date(loc.date(), freq)
    b = combine(d, sod, tz)
    if b <= s:
        return b
    return combine(floor_date(d - dt.timedelta(days=1), freq), sod, tz)


def nxt(b: int, freq: str, sod: str, tz, k: int = 1) -> int:
    """k-th period start after period start b (b on boundary)."""
    base, _ = parse_freq(freq)
    if base in FIXED:
        return b + k * FIXED[base]
    return combine(add_date(sec2local(b, tz).date(), freq, k), sod, tz)


def ceil(s: int, freq: str, sod: str, tz) -> int:
    f = floor(s, freq, sod, tz)
    return f if f == s else nxt(f, freq, sod, tz)


def is_boundary(s: int, freq: str, sod: str, tz) -> bool:
    return floor(s, freq, sod, tz) == s


def cover(bounds, freq: str, sod: str, tz):
    """Boundaries of all full freq-periods inside [bounds[0], bounds[-1]] (>=1 boundary or [])."""
    s = ceil(bounds[0], freq, sod, tz)
    out = []
    while s <= bounds[-1]:
        out.append(s)
        s = nxt(s, freq, sod, tz)
    return out if len(out) >= 2 else []


def downsample(bounds, values, freq, sod, tz, how):
    """Reference downsampling.  how: 'sum' | 'avg'. -> (newbounds, newvalues)"""
    nb = cover(bounds, freq, sod, tz)
    out = []
    for a, b in zip(nb, nb[1:]):
        i, j = bisect.bisect_left(bounds, a), bisect.bisect_left(bounds, b)
        assert bounds[i] == a and bounds[j] == b, (a, b)
        if how == "sum":
            out.append(sum(values[i:j]))
        else:
            out.append(sum(v * (bounds[k + 1] - bounds[k]) for k, v in zip(range(i, j), values[i:j])) / (b - a))
    return nb, out


def upsample(bounds, values, freq, sod, tz, how):
    nb, out = [bounds[0]], []
    for a, b, v in zip(bounds, bounds[1:], values):
        s = a
        while s < b:
            e = nxt(s, freq, sod, tz) if rank(freq) >= 2 else s + FIXED[freq]
            out.append(v * (e - s) / (b - a) if how == "sum" else v)
            nb.append(e)
            s = e
        assert s == b
    return nb, out
