"""C24: standardizing gives a well-formed frame with the same data, or an error."""

import datetime as dt

import pandas as pd

from .. import cal, pfm, real
from ..engine import Mismatch
from . import c23

PROP = "C24"
TECHNIQUE = "exhaustive enumeration of windows x input representations x conversion arguments, and of every single defect position, on the real standardize function against a first-principles timezone model"
EXPLANATION = (
    "Every window (full days around DST changes; months, quarters, years) is written in every input representation (aware,"
    " naive wall time of a timezone, timezone-agnostic; left-bound, right-bound in both conventions; frequency set or to be"
    " inferred; timestamps as strings) and standardized with every (force, tz, floating); the result must have exactly the"
    " timestamps and values of the model, can be made into a portfolio line and is a fixed point. Every single-position gap,"
    " duplicate, swap and every reversal, off-grid or partial-day window and disallowed frequency must be rejected."
)
ASSUMPTIONS = c23.ASSUMPTIONS[:2] + [
    "a gap or duplicate that turns one valid representation into another one (wall time <-> timezone-agnostic) is not a defect",
]
ZONES = ["Europe/Berlin", "America/New_York", "Asia/Kolkata"]
FREQS = ["15min", "h", "D", "MS", "QS", "QS-FEB", "YS", "YS-APR"]
DSTDAYS = {"Europe/Berlin": ["2020-03-29", "2020-10-25"], "America/New_York": ["2020-03-08", "2020-11-01"], "Asia/Kolkata": ["2020-03-29"], None: ["2020-03-29", "2020-10-25"]}


def groups(tier):
    out = []
    for z in [None] + ZONES:
        for freq in FREQS:
            for part in ("convert", "defect"):
                for n in (0, 1) if freq in cal.FIXED else (0,):
                    out.append({"z": z, "freq": freq, "part": part, "sub": n})
    return out


def windows(z, freq, tier):
    deep = tier == "thorough"
    base = cal.parse_freq(freq)[0]
    if base in cal.FIXED or base == "D":
        for d0 in DSTDAYS[z]:
            d = dt.datetime.fromisoformat(d0)
            for h in (0, 3, 6) if base in cal.FIXED and deep else (0, 6):
                for a in (-2, -1, 0, 1) if deep or base == "D" else (-1, 0):
                    for n in (1, 2) if base in cal.FIXED else (1, 2, 3, 4, 6):
                        s = d + dt.timedelta(days=a, hours=h)
                        yield s, s + dt.timedelta(days=n)
        return
    for y in (2019, 2020) if deep else (2020,):
        for m in range(1, 13):
            d = dt.date(y, m, 1)
            if cal.floor_date(d, freq) != d:
                continue
            for n in (1, 2, 3, 4, 5, 13) if deep or base != "MS" else (1, 3, 4, 13):
                for h in (0, 6):
                    yield dt.datetime.combine(d, dt.time(h)), dt.datetime.combine(cal.add_date(d, freq, n), dt.time(h))


def bounds_of(a, b, freq, z):
    s, e = cal.local2sec(a, z), cal.local2sec(b, z)
    out = [s]
    while out[-1] < e:
        out.append(cal.right(out[-1], freq, z))
    assert out[-1] == e
    return out


def naive(secs):
    return [pd.Timestamp(s, unit="s") for s in secs]


def representations(bounds, freq, z):
    """-> (kind, bound, setfreq, DatetimeIndex, tz needed for interpretation, can be understood)"""
    starts, ends = bounds[:-1], bounds[1:]
    for bound, secs in (("left", starts), ("right", ends)):
        i = pd.DatetimeIndex([real.stamp(s, z) for s in secs])
        for setfreq in (True, False):
            if setfreq:
                i = i.copy()
                i.freq = freq
                yield "aware" if z else "agnostic", bound, True, i, True
            else:
                j = pd.DatetimeIndex(list(i))
                yield "aware" if z else "agnostic", bound, False, j, len(j) >= 3
                if z is None:
                    yield "strings", bound, False, j, len(j) >= 3
    if z is not None:
        w = c23.wall
        step = cal.FIXED.get(freq)
        yield "wall", "left", False, pd.DatetimeIndex(naive(w(s, z) for s in starts)), len(starts) >= 3
        yield "wall", "right", False, pd.DatetimeIndex(naive(w(s, z) for s in ends)), len(starts) >= 3
        if step:
            yield "wallA", "right", False, pd.DatetimeIndex(naive(w(s, z) + step for s in starts)), len(starts) >= 3


def valid(starts, freq, tz):
    """May a frame with these periods be standardized"""
    w = [c23.wall(s, tz) for s in starts]
    end = cal.right(starts[-1], freq, tz)
    if freq == "15min":
        return w[0] % 3600 == 0 and (w[0] - c23.wall(end, tz)) % 86400 == 0
    if any(x % 3600 for x in w):
        return False
    if freq == "h":
        return (w[0] - c23.wall(end, tz)) % 86400 == 0
    return len({x % 86400 for x in w}) == 1


def expected(bounds, freq, z, force, tz, floating):
    """-> ('ok', tz, starts, ids) | 'reject' | 'maybe'"""
    starts, ids = bounds[:-1], list(range(len(bounds) - 1))
    if force == "agnostic" or (force is None and z is None):
        res = c23.to_agnostic(starts, ids, freq, z) if z else (starts, ids)
        tzout = None
    elif force is None or z == tz:
        res, tzout = (starts, ids), z
    elif z is not None and not floating:
        if freq not in cal.FIXED and not all(
            (freq == "D" or c23.on_boundary(x, freq, tz)) and cal.right(x, freq, tz) == y for x, y in zip(bounds, bounds[1:])
        ):
            return "reject"
        res, tzout = (starts, ids), tz
        if freq not in cal.FIXED and any(c23.exists(cal.sec2local(x, tz), tz) != 1 for x in bounds):
            return "maybe"
    else:
        agn = c23.to_agnostic(starts, ids, freq, z) if z else (starts, ids)
        res, tzout = agn and c23.to_aware(*agn, freq, tz), tz
    if res is None:
        return "maybe"
    if not valid(res[0], freq, tzout):
        return "reject"
    return ("ok", tzout, *res)


def cmp(out, fr, shape, tz, freq, starts, ids, what):
    c23.compare(out, fr, shape, tz, freq, starts, ids, what)
    if out.index.name != "ts_left":
        raise Mismatch(f"{what}: index name {out.index.name}")


def convert(group, rec, tier):
    import portfolyo as pf

    z, freq = group["z"], group["freq"]
    k = 0
    for a, b in windows(z, freq, tier):
        bounds = bounds_of(a, b, freq, z)
        for kind, bound, setfreq, i, understood in representations(bounds, freq, z):
            k += 1
            if freq in cal.FIXED and k % 2 != group["sub"]:
                continue
            for force in (None, "aware", "agnostic"):
                for tz in [None, *ZONES] if force == "aware" else [None, z or "Europe/Berlin"]:
                    if kind.startswith("wall") and tz != z:
                        continue  # cannot be interpreted
                    if force == "aware" and tz is None:
                        if k % 7 == 0:
                            with rec.case(start=str(a), end=str(b), kind=kind, bound=bound, setfreq=setfreq, force=force, tz=None):
                                fr = c23.build(i, "s")
                                rec.raises(lambda: pf.standardize(fr, force, bound), "no timezone")
                        continue
                    for floating in (True, False) if force == "aware" and z and tz != z else (True,):
                        shapes = [c23.SHAPES[(k + (tz or "").count("e")) % 5]] if tier != "thorough" else c23.SHAPES[:4]
                        for shape in shapes:
                            with rec.case(start=str(a), end=str(b), kind=kind, bound=bound, setfreq=setfreq, force=force, tz=tz, floating=floating, shape=shape):
                                one(pf, rec, group, bounds, kind, bound, setfreq, i, understood, force, tz, floating, shape, k)


def one(pf, rec, group, bounds, kind, bound, setfreq, i, understood, force, tz, floating, shape, k):
    z, freq = group["z"], group["freq"]
    wall = kind.startswith("wall")
    fr = c23.build(i, shape)
    if kind == "strings":
        fr.index = [str(t) for t in i]
    before = fr.copy(deep=True)
    fn = lambda f: pf.standardize(f, force, bound, tz=tz, floating=floating)
    regular = freq not in cal.FIXED or len({int(x) for x in (i[1:] - i[:-1]).total_seconds()}) == 1
    # wall-time data can only be left wall-time if it has no dst-change
    exp = expected(bounds, freq, z, "agnostic" if wall and force is None else force, tz, floating)
    if wall and regular and (freq in cal.FIXED) and exp != "maybe" and isinstance(exp, tuple):
        # is seen as agnostic data; the same, if no dst-change inside
        secs = [int(t.value // 10**9) for t in i]
        step = cal.FIXED[freq]
        left = [s - (step if bound == "right" else 0) for s in secs]
        if left != [c23.wall(s, z) for s in bounds[:-1]]:
            exp = "maybe"
    rec.step()
    try:
        out = fn(fr)
    except Exception as e:
        if not before.equals(fr) or not before.index.equals(fr.index):
            raise Mismatch("input was changed")
        if not understood or not isinstance(exp, tuple):
            rec.outcome("rejected")
            return
        raise Mismatch(f"refused with {type(e).__name__}: {e}")
    if not before.equals(fr) or not before.index.equals(fr.index):
        raise Mismatch("input was changed")
    if not understood:
        raise Mismatch(f"frequency cannot be known, but accepted: {out.index}")
    if exp == "reject":
        raise Mismatch(f"should be rejected; gave {out.index}")
    if exp == "maybe":
        return
    _, tzout, starts, ids = exp
    cmp(out, fr, shape, tzout, freq, starts, ids, "result")
    rec.outcome(f"{kind} {bound} {force}")
    rec.state(freq, z, tzout, starts[0], starts[-1])
    again = pf.standardize(out, force, "left", tz=tz, floating=floating)
    cmp(again, fr, shape, tzout, freq, starts, ids, "result standardized again")
    rec.step()
    if k % 3 == 0 and shape in ("s", "spint"):
        line = pf.PfLine({"w": out})
        if real.secs(line.index) != starts or real.mags(line.w) != real.mags(out):
            raise Mismatch("portfolio line from standardized series has other data")
        rec.step()


def defect(group, rec, tier):
    import portfolyo as pf

    z, freq, sub = group["z"], group["freq"], group["sub"]
    step = cal.FIXED.get(freq)
    ws = list(windows(z, freq, "quick"))
    if step:
        ws = ws[:: 3 if freq == "15min" else 2]
    tzs = [None] if z is None else [z]
    for nr, (a, b) in enumerate(ws):
        bounds = bounds_of(a, b, freq, z)
        n = len(bounds) - 1
        if n < 2 or nr % 2 != sub and step:
            continue
        for bound in ("left", "right"):
            secs = bounds[:-1] if bound == "left" else bounds[1:]
            reprs = [("aware" if z else "agnostic", z, secs)]
            if z is not None:
                reprs.append(("wall", None, [c23.wall(s, z) for s in secs]))
            for kind, itz, vals in reprs:
                for what, secs2 in defects(vals, freq, step, tier):
                    for force in ("aware", "agnostic", None) if tier == "thorough" else (("aware", "agnostic", None)[len(what) % 3],):
                        for tz in ([None, "Europe/Berlin"] if z is None else [z]):
                            if force == "aware" and tz is None:
                                continue
                            if tz is not None and itz is None and legit(secs2, freq, step, bound, tz):
                                continue
                            if itz is not None and regular_aware(secs2, freq, itz, bound):
                                continue
                            with rec.case(start=str(a), end=str(b), kind=kind, bound=bound, defect=what, force=force, tz=tz):
                                i = pd.DatetimeIndex([real.stamp(s, itz) for s in secs2])
                                fr = pd.Series([float(x) for x in range(len(i))], i)
                                rec.raises(lambda: pf.standardize(fr, force, bound, tz=tz), f"{what}: {len(i)} timestamps {list(map(str, i[:3]))}..{list(map(str, i[-3:]))}")
                                rec.state(freq, z, kind, bound, what)
    other(pf, rec, group)


def defects(vals, freq, step, tier):
    n = len(vals)
    ks = range(n)
    if n > 30 and tier != "thorough":  # every position near the borders and around the DST change
        ks = sorted({0, 1, 2, n - 3, n - 2, n - 1, *range(0, n, 7), *[k for k in range(1, n) if vals[k] - vals[k - 1] != step]})
    for k in ks:
        if 0 < k < n - 1:
            yield f"gap {k}", vals[:k] + vals[k + 1 :]
        yield f"duplicate {k}", vals[: k + 1] + vals[k:]
        if k + 1 < n and vals[k] != vals[k + 1]:
            yield f"swap {k}", vals[:k] + [vals[k + 1], vals[k]] + vals[k + 2 :]
        if 0 < k < n - 2:
            yield f"gap2 {k}", vals[:k] + vals[k + 2 :]
    if n > 2:
        yield "reversed", vals[::-1]
    yield "5 minutes late", [v + 300 for v in vals]
    if step:
        yield "first missing", vals[1:]
        yield "last missing", vals[:-1]
        yield "some missing", vals[2:-1]
    else:
        yield "one late", vals[:1] + [v + 3600 for v in vals[1:]]
        if cal.parse_freq(freq)[0] != "D":
            yield "a day late", [v + 86400 for v in vals]


def legit(secs, freq, step, bound, tz):
    """naive timestamps are a valid left- or right-bound wall-time or agnostic index of freq (or longer)"""
    if step is None:
        return whole(secs, freq, None)
    if ok_step(secs, step) and (secs[-1] + step - secs[0]) % 86400 == 0:
        return True
    for conv in ("A", "B") if bound == "right" else ("A",):
        # candidate: aware window starting at first, each wall time exists in sequence
        first = secs[0] - step if bound == "right" else secs[0]
        for fold in (0, 1):
            s = cal.local2sec(cal.sec2local(first, None), tz, fold)
            for s0 in (s, s - 3600, s + 3600):
                st = [s0 + k * step for k in range(len(secs))]
                w = [c23.wall(x, tz) for x in st]
                if bound == "right":
                    w = [x + step for x in w] if conv == "A" else [c23.wall(x + step, tz) for x in st]
                if w == secs:
                    return True
    return False


def ok_step(secs, step):
    return all(b - a == step for a, b in zip(secs, secs[1:]))


def whole(secs, freq, tz):
    """consecutive periods of some allowed day-or-longer frequency"""
    loc = [cal.sec2local(s, tz) for s in secs]
    if len({x.time() for x in loc}) > 1 or loc[0].minute:
        return False
    dates = [x.date() for x in loc]
    if len(dates) < 3:
        return False
    for f in ["D", "MS", "QS", "QS-FEB", "QS-MAR"] + [f"YS-{m}" for m in cal.MONTHS]:
        if cal.floor_date(dates[0], f) == dates[0] and all(cal.add_date(x, f) == y for x, y in zip(dates, dates[1:])):
            return True
    return False


def regular_aware(secs, freq, tz, bound):
    if freq in cal.FIXED:
        step = cal.FIXED[freq]
        if not ok_step(secs, step):
            return False
        starts = secs if bound == "left" else [s - step for s in secs]
        return valid(starts, freq, tz)
    return whole(secs, freq, tz)


def other(pf, rec, group):
    """Frames without usable index; not-allowed frequencies."""
    z, freq = group["z"], group["freq"]
    if freq != "D":
        return
    cases = {
        "range": pd.Series([1.0, 2, 3]),
        "text": pd.Series([1.0, 2, 3], ["a", "b", "c"]),
        "empty": pd.Series([], pd.DatetimeIndex([]), dtype=float),
        "emptyfreq": pd.Series([], pd.date_range("2020", periods=0, freq="D", tz=z), dtype=float),
        "nat": pd.Series([1.0, 2, 3, 4], pd.DatetimeIndex(["2020-01-01", "2020-01-02", None, "2020-01-04"])),
    }
    for f in ["30min", "5min", "2h", "6h", "12h", "2D", "7D", "W", "B", "ME", "2MS", "QE", "YE", "2YS", "min", "s", "SMS", "2QS", "BMS", "-1D", "-1h"]:
        for n in (1, 3, 4, 24, 48):
            for setfreq in (True, False):
                if not setfreq and (n < 3 or f in ("2QS", "BMS") or (f == "B" and n == 3)):
                    continue
                i = pd.date_range("2020-01-01", periods=n, freq=f, tz=z)
                if not setfreq:
                    i = pd.DatetimeIndex(list(i))
                cases[f"{f} {n} {setfreq}"] = pd.Series(range(n), i)
    for name, fr in cases.items():
        for force in (None, "aware", "agnostic"):
            for bound in ("left", "right"):
                with rec.case(frame=name, force=force, bound=bound):
                    rec.raises(lambda: pf.standardize(fr, force, bound, tz=z or "Europe/Berlin"), name)
    i = pd.date_range("2020", freq="D", periods=4, tz=z)
    for force in ("nonsense", "Aware", True):
        with rec.case(force=force):
            rec.raises(lambda: pf.standardize(pd.Series(range(4), i), force, tz="Europe/Berlin"), "force")


def run(group, rec, tier):
    (convert if group["part"] == "convert" else defect)(group, rec, tier)
