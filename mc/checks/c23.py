"""C23: timezone conversion keeps the data aligned."""

import datetime as dt
from zoneinfo import ZoneInfo

import pandas as pd

from .. import cal, pfm, real
from ..engine import Mismatch

PROP = "C23"
TECHNIQUE = "exhaustive enumeration of windows around DST changes x source/target timezones x frequencies x frame shapes on the real conversion functions against a first-principles timezone model"
EXPLANATION = (
    "Every (source timezone, target timezone, frequency, start-of-day, window, floating) is converted by force_aware /"
    " force_agnostic as series, unit series and (multi-level) dataframe with a distinct value in every row; timestamps and"
    " values must be those of the wall-clock / absolute-time model; and converting again, or back, is followed by the model."
)
ASSUMPTIONS = [
    "wall-clock conversion keeps the first of two repeated hours, and fills a nonexistent hour with the hour before (documented in the code and the repository's reference workbook)",
    "windows that start or end inside the repeated or nonexistent hour of the target may be refused",
    "day-or-longer data may be refused if floating=False (documented); if it is converted, every delivery period must keep its start and end",
]
AWARE = ["Europe/Berlin", "America/New_York", "Europe/London", "Asia/Kolkata", "UTC"]
FIXEDS = ["15min", "h"]
LONGS = ["D", "MS", "QS", "QS-FEB", "YS", "YS-APR"]
SHAPES = ["s", "spint", "df", "dfm", "sint"]


def groups(tier):
    out = []
    for src in [None] + AWARE:
        for tgt in [None] + AWARE:
            for f in FIXEDS:
                out.append({"src": src, "tgt": tgt, "fs": [f]})
            out.append({"src": src, "tgt": tgt, "fs": LONGS})
    for src, tgt in [("Australia/Lord_Howe", None), (None, "Australia/Lord_Howe"), ("Australia/Lord_Howe", "Europe/Berlin"), ("Europe/Berlin", "Australia/Lord_Howe")]:
        out.append({"src": src, "tgt": tgt, "fs": ["15min", "D", "MS"]})
    for src, tgt in [("America/Sao_Paulo", None), (None, "America/Sao_Paulo"), ("America/Sao_Paulo", "Europe/Berlin"), ("Europe/Berlin", "America/Sao_Paulo")]:
        out.append({"src": src, "tgt": tgt, "fs": ["h", "D", "MS"]})
    return out


DST = {
    "Europe/Berlin": ["2020-03-29", "2020-10-25"],
    "Europe/London": ["2020-03-29", "2020-10-25"],
    "America/New_York": ["2020-03-08", "2020-11-01"],
    "Australia/Lord_Howe": ["2020-04-05", "2020-10-04"],
    "America/Sao_Paulo": ["2018-02-18", "2018-11-04"],
}


def windows(src, tgt, freq, tier):
    """-> (wall start, wall end) in source"""
    days = sorted({d for z in (src, tgt) for d in DST.get(z, [])} or {"2020-03-29"})
    base = cal.parse_freq(freq)[0]
    deep = tier == "thorough"
    if base in cal.FIXED:
        for d0 in days:
            d = dt.datetime.fromisoformat(d0)
            for h in (0, 6) if not deep else (0, 1, 4, 6, 22):
                for a in (-1, 0, 1) if deep else (-1, 0):
                    for n in (1, 2, 3) if base == "h" else (1, 2):
                        s = d + dt.timedelta(days=a, hours=h)
                        yield s, s + dt.timedelta(days=n)
            # partial days: start/end around the change
            for h1 in (-3, -1, 0, 1, 2, 3, 4):
                for h2 in (3, 4, 5, 8, 13):
                    if h2 - h1 >= 3 and (deep or (h1 + h2) % 2 == 0):
                        for m in (0, 15, 30) if base == "15min" else (0,):
                            yield d + dt.timedelta(hours=h1, minutes=m), d + dt.timedelta(hours=h2, minutes=m)
    elif base == "D":
        for d0 in days:
            d = dt.datetime.fromisoformat(d0)
            for h in (0, 6):
                for a in (-3, -2, -1, 0, 1):
                    for n in (1, 2, 3, 4, 35) if deep else (1, 2, 4):
                        s = d + dt.timedelta(days=a, hours=h)
                        yield s, s + dt.timedelta(days=n)
    else:
        for y in (2018, 2019, 2020) if deep else (2018, 2020):
            for m in range(1, 13):
                d = dt.date(y, m, 1)
                if cal.floor_date(d, freq) != d:
                    continue
                for n in (1, 2, 3, 4, 7, 13):
                    e = cal.add_date(d, freq, n)
                    for h in (0, 6):
                        t = dt.time(h)
                        yield dt.datetime.combine(d, t), dt.datetime.combine(e, t)


def exists(d, tz):
    """number of instants with wall time d"""
    if tz is None:
        return 1
    a, b = (cal.local2sec.__wrapped__(d, tz, f) for f in (0, 1))
    if cal.sec2local(a, tz) != d:
        return 0
    return 1 if a == b else 2


def wall(s, tz):
    return cal.naive_secs(cal.sec2local(s, tz))


def to_agnostic(starts, ids, freq, tz):
    """model: (instants, ids) aware -> (wall instants, ids)"""
    w = [wall(s, tz) for s in starts]
    if freq not in cal.FIXED:
        return w, ids
    first = {}
    for t, v in zip(w, ids):
        first.setdefault(t, v)
    step = cal.FIXED[freq]
    grid = list(range(w[0], w[-1] + 1, step))
    if any(t not in first and t - 3600 not in first for t in grid):
        return None  # hour before is not in the source
    return grid, [first[t] if t in first else first[t - 3600] for t in grid]


def to_aware(starts, ids, freq, tz):
    """model: (wall instants, ids) -> (instants, ids); None if ends are not unique instants."""
    loc = [cal.sec2local(s, None) for s in starts]
    if freq not in cal.FIXED:
        if any(exists(d, tz) != 1 for d in loc):
            return None
        return [cal.local2sec(d, tz) for d in loc], ids
    if exists(loc[0], tz) != 1 or exists(loc[-1], tz) != 1:
        return None
    a, b = cal.local2sec(loc[0], tz), cal.local2sec(loc[-1], tz)
    grid = list(range(a, b + 1, cal.FIXED[freq]))
    val = dict(zip(starts, ids))
    return grid, [val[wall(s, tz)] for s in grid]


def build(i, shape):
    n = len(i)
    a = [float(k) for k in range(n)]
    if shape == "s":
        return pd.Series(a, i, name="foo")
    if shape == "sint":
        return pd.Series(range(n), i)
    if shape == "spint":
        return pd.Series(a, i, name="w").astype("pint[MW]")
    if shape == "df":
        return pd.DataFrame({"w": pd.Series(a, i).astype("pint[MW]"), "p": [v + 0.5 for v in a], "x": [f"t{k}" for k in range(n)]}, i)
    cols = pd.MultiIndex.from_tuples([("a", "w"), ("b", "p")], names=["c", "v"])
    return pd.DataFrame([[v, -v] for v in a], i, columns=cols)


def compare(out, fr, shape, tz, freq, starts, ids, what):
    i = out.index
    if not isinstance(i, pd.DatetimeIndex) or type(out) is not type(fr):
        raise Mismatch(f"{what}: {type(out)} with {type(i)}")
    if real.tzname(i.tz) != tz or i.freq is None or not pfm.same_freq(i.freqstr, freq):
        raise Mismatch(f"{what}: tz {i.tz}, freq {i.freqstr}; expected {tz}, {freq}")
    if (got := real.secs(i)) != starts:
        k = next((k for k, (a, b) in enumerate(zip(got, starts)) if a != b), min(len(got), len(starts)))
        raise Mismatch(f"{what}: {len(got)} timestamps, first wrong #{k} {i[k:k+1]}; expected {len(starts)}: {[str(real.stamp(s, tz)) for s in starts[k:k+1]]}")
    ids = [int(v) for v in ids]
    exp = fr.iloc[ids]
    if shape in ("s", "sint", "spint"):
        if out.name != fr.name or out.dtype != fr.dtype:
            raise Mismatch(f"{what}: series ({out.name}, {out.dtype}), expected ({fr.name}, {fr.dtype})")
        if real.mags(out) != real.mags(exp):
            raise Mismatch(f"{what}: values {real.fmt(real.mags(out), 30)} != {real.fmt(real.mags(exp), 30)}")
        return
    if list(out.columns) != list(fr.columns) or list(out.columns.names) != list(fr.columns.names) or list(out.dtypes) != list(fr.dtypes):
        raise Mismatch(f"{what}: columns {list(out.columns)} {list(out.dtypes)}; expected {list(fr.columns)} {list(fr.dtypes)}")
    for k in range(len(fr.columns)):
        a, b = out.iloc[:, k], exp.iloc[:, k]
        if (list(a) != list(b)) if a.dtype == object else real.mags(a) != real.mags(b):
            raise Mismatch(f"{what}: column {fr.columns[k]}: {list(a)[:30]} != {list(b)[:30]}")


def maybe(rec, fn, sure, what):
    """fn(), which may be refused unless sure"""
    rec.step()
    try:
        return fn()
    except Exception as e:
        if sure:
            raise
        rec.outcome("refused " + type(e).__name__)
        return None


def run(group, rec, tier):
    import portfolyo as pf

    src, tgt = group["src"], group["tgt"]
    k = 0
    for freq in group["fs"]:
        for a, b in windows(src, tgt, freq, tier):
            k += 1
            loc_ok = exists(a, src) == 1 and exists(b, src) == 1
            if not loc_ok:
                continue
            s, e = cal.local2sec(a, src), cal.local2sec(b, src)
            bounds = [s]
            while bounds[-1] < e:
                bounds.append(cal.right(bounds[-1], freq, src))
            starts = bounds[:-1]
            if bounds[-1] != e:
                continue
            if any(wall(x, src) % 86400 != wall(s, src) % 86400 for x in bounds) and freq not in cal.FIXED:
                continue  # day start does not exist
            if freq not in cal.FIXED and any(exists(cal.sec2local(x, src), src) != 1 for x in bounds):
                continue
            if src == "Australia/Lord_Howe" and wall(bounds[-1], src) <= wall(s, src):
                continue
            i = pd.date_range(real.stamp(s, src), periods=len(starts), freq=freq)
            if real.secs(i) != starts:
                raise RuntimeError(f"harness index {i} {bounds}")
            ids = list(range(len(starts)))
            shapes = SHAPES if tier == "thorough" else [SHAPES[k % 5], SHAPES[(k + 2) % 5]]
            for shape in shapes:
                with rec.case(freq=freq, start=str(a), end=str(b), shape=shape):
                    one(pf, rec, i, starts, bounds, ids, freq, src, tgt, shape, k)


def one(pf, rec, i, starts, bounds, ids, freq, src, tgt, shape, k):
    fr = build(i, shape)
    if k % 3 == 0 and len(i) > 4:  # frequency must then be inferred
        j = pd.DatetimeIndex(list(i), name="t")
        fr = fr.set_axis(j)
    before = fr.copy(deep=True)
    rec.state(freq, src, tgt, starts[0], starts[-1])
    rec.outcome(f"{freq} {bool(src)}->{bool(tgt)}")
    agn = (starts, ids) if src is None else to_agnostic(starts, ids, freq, src)
    if tgt is None:
        rec.step()
        out = maybe(rec, lambda: pf.force_agnostic(fr), agn is not None, "agnostic")
        if agn is not None:
            compare(out, fr, shape, None, freq, *agn, "agnostic")
            compare(pf.force_agnostic(out), fr, shape, None, freq, *agn, "agnostic again")
    else:
        exp = (starts, ids) if src == tgt else to_aware(*agn, freq, tgt) if agn else None
        grid_ok = src != "Australia/Lord_Howe" or freq != "h"
        out = maybe(rec, lambda: pf.force_aware(fr, tgt), exp is not None and grid_ok, "floating")
        if exp is not None and out is not None:
            compare(out, fr, shape, tgt, freq, *exp, "aware")
            compare(pf.force_aware(out, tgt), fr, shape, tgt, freq, *exp, "aware again")
            compare(pf.force_aware(out, tgt, floating=False), fr, shape, tgt, freq, *exp, "aware again, absolute")
            rec.step(2)
            # and back again to wall time
            back = to_agnostic(*exp, freq, tgt)
            again = maybe(rec, lambda: pf.force_agnostic(out), back is not None, "back")
            if back is not None:
                compare(again, fr, shape, None, freq, *back, "aware -> agnostic")
        elif out is not None and agn is not None:
            # accepted although ends are not unique wall times: every value must be at its wall time
            w = dict(zip(*agn))
            got = real.secs(out.index)
            if any(wall(s, tgt) in w and real.mags(build_first(out))[n] != w[wall(s, tgt)] for n, s in enumerate(got) if exists(cal.sec2local(s, tgt), tgt) == 1 and wall(s, tgt) in w):
                raise Mismatch("value at wrong wall time")
        if src is not None:
            # absolute time
            sure = freq in cal.FIXED or src == tgt
            same = src == tgt or freq in cal.FIXED or all((freq == "D" or on_boundary(x, freq, tgt)) and cal.right(x, freq, tgt) == y for x, y in zip(bounds, bounds[1:]))
            out = maybe(rec, lambda: pf.force_aware(fr, tgt, floating=False), sure, "absolute")
            if out is not None:
                if not same:
                    raise Mismatch(f"absolute: delivery periods do not exist in target timezone, but were converted: {out.index} (from {fr.index})")
                compare(out, fr, shape, tgt, freq, starts, ids, "absolute")
            elif same and all(exists(cal.sec2local(x, tgt), tgt) == 1 for x in bounds):
                raise Mismatch("absolute: conversion refused though all delivery periods exist in the target timezone")
            # zoneinfo timezone object with the same name
            z = fr.copy()
            z.index = fr.index.tz_convert(ZoneInfo(src))
            if z.index.freq is None and fr.index.freq is not None:
                z.index.freq = fr.index.freq
            if src == tgt:
                compare(pf.force_aware(z, tgt), fr, shape, tgt, freq, starts, ids, "zoneinfo, same timezone")
                rec.step()
    eq = before.index.equals(fr.index) and before.equals(fr)
    if not eq:
        raise Mismatch("input was changed")


def on_boundary(s, freq, tz):
    loc = cal.sec2local(s, tz)
    return cal.floor_date(loc.date(), freq) == loc.date()


def build_first(out):
    return out if isinstance(out, pd.Series) else out.iloc[:, 0]
