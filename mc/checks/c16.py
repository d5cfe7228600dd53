"""C16: peak functions select exactly the specified hours."""

import datetime as dt
import itertools

from .. import cal, pfm, real
from ..engine import Mismatch

PROP = "C16"
TECHNIQUE = "exhaustive enumeration of all quarter-hour bounds, all sets of weekdays and all frequencies, around DST changes, on the real code against a calendar model"
EXPLANATION = (
    "All 97 x 97 pairs of (quarter)hour bounds (or open) and all 128 subsets of weekdays are turned into peak functions,"
    " which are evaluated on indices of every frequency that contain a normal day, a DST change, and a month and year end;"
    " every single timestamp is compared with the wall-clock time from the time zone database. Peak and offpeak durations"
    " are compared with the model for all frequencies and start-of-days."
)
ASSUMPTIONS = ["(left bound after right bound gives either no peak hours, or an error)"]
TIMES = [None] + [dt.time(q // 4, q % 4 * 15) for q in range(96)]
MID = dt.time(0, 0)
DAYS = {  # tz -> windows (first day, number of days)
    "Europe/Berlin": [("2020-03-28", 3), ("2020-10-24", 3), ("2019-12-30", 3)],
    "America/New_York": [("2020-03-07", 3), ("2020-10-31", 3)],
    "Australia/Lord_Howe": [("2020-04-04", 2), ("2020-10-03", 2)],
    "Asia/Kolkata": [("2020-02-28", 3)],
    None: [("2020-02-28", 3)],
}


def fixix(tz, freq, sod, start, ndays):
    d0 = dt.date.fromisoformat(start)
    a, b = cal.combine(d0, sod, tz), cal.combine(d0 + dt.timedelta(days=ndays), sod, tz)
    if freq in cal.FIXED:
        return pfm.Ix(tz, freq, sod, list(range(a, b + 1, cal.FIXED[freq])))
    return pfm.Ix(tz, freq, sod, cal.periods(a, freq, tz, ndays))


def groups(tier):
    out = []
    for tz, wins in DAYS.items():
        for w in wins:
            for part in range(4):
                out.append({"t": "bounds", "tz": tz, "w": w, "part": part, "f": "15min"})
            hours = () if tz == "Australia/Lord_Howe" else ("h",)  # DST shift of 30 min: hours start at :30
            for f in hours:
                out.append({"t": "bounds", "tz": tz, "w": w, "part": None, "f": f})
            for f in ("15min", *hours, "D"):
                out.append({"t": "days", "tz": tz, "w": w, "f": f})
    for tz in ("Europe/Berlin", "America/New_York", None, "Asia/Kolkata"):
        for sod in ("00:00", "06:00"):
            out.append({"t": "duration", "tz": tz, "sod": sod})
    out.append({"t": "reject"})
    out.append({"t": "german"})
    return out


def longest(left, right):
    if left in (None, MID) and right in (None, MID):
        return "D"
    if (left or MID).minute == 0 and (right or MID).minute == 0:
        return "h"
    return "15min"


def oracle(x, left, right, days):
    out = []
    for s in x.starts:
        loc = cal.sec2local(s, x.tz)
        t = loc.time()
        ok = loc.isoweekday() in days
        if left not in (None, MID):
            ok &= t >= left
        if right not in (None, MID):
            ok &= t < right
        out.append(bool(ok))
    return out


def check(fn, i, x, want, what):
    got = fn(i)
    if not got.index.equals(i) or got.index.freq != i.freq or got.dtype != bool:
        raise Mismatch(f"{what}: index or dtype {got.dtype}")
    g = [bool(v) for v in got.values]
    if g != want:
        k = next(k for k, (a, b) in enumerate(zip(g, want)) if a != b)
        raise Mismatch(f"{what}: {i[k]} {'is' if g[k] else 'not'} peak")


def bounds_ok(left, right):
    return right in (None, MID) or (left or MID) < right


def run(group, rec, tier):
    import portfolyo as pf

    t = group["t"]
    if t == "bounds":
        tz, (start, nd), f = group["tz"], group["w"], group["f"]
        x = fixix(tz, f, "00:00", start, nd if tier == "thorough" or f == "h" else 2)
        i = x.real()
        days = [1, 2, 3, 4, 5, 6, 7]
        lefts = TIMES if group["part"] is None else TIMES[group["part"] :: 4]
        for left in lefts:
            for right in TIMES:
                if longest(left, right) == "D":
                    continue
                if tier == "quick" and f == "15min" and right is not None and left is not None:
                    # every pair of which one is near the DST change or both are on a half hour
                    if not (left.hour in (1, 2, 3) and right.minute in (0, 15)) and not (right.hour in (1, 2, 3) and left.minute in (0, 45)):
                        if left.minute % 30 or right.minute % 30:
                            continue
                with rec.case(left=str(left), right=str(right)):
                    rec.step()
                    try:
                        fn = pf.create_peakfn(left, right, days)
                    except ValueError:
                        if bounds_ok(left, right):
                            raise
                        rec.outcome("refused: impossible bounds")
                        continue
                    if cal.rank(f) > cal.rank(longest(left, right)):
                        rec.raises(lambda: fn(i), f"{left}-{right} on {f}", ValueError)
                        continue
                    want = oracle(x, left, right, days)
                    check(fn, i, x, want, f"{left}-{right}")
                    rec.state(x.key(), want)
                    rec.outcome("some" if any(want) else "none")
        rec.sample({"group": group, "bounds": [str(v) for v in lefts[:3]]})
    elif t == "days":
        tz, (start, nd), f = group["tz"], group["w"], group["f"]
        for k, days in enumerate(d for r in range(8) for d in itertools.combinations(range(1, 8), r)):
            for left, right in [(None, None), (dt.time(8), dt.time(20)), (dt.time(22, 15), None), (None, dt.time(3))]:
                with rec.case(days=days, left=str(left), right=str(right)):
                    form = [list, tuple, set, iter][k % 4]
                    rec.step()
                    if not days or (len(days) == 7 and left is right is None):
                        rec.raises(lambda: pf.create_peakfn(left, right, form(days)), "no special cases", ValueError)
                        continue
                    src = form(days)
                    fn = pf.create_peakfn(left, right, src)
                    if form is list:
                        src.clear()  # caller's object
                    x = fixix(tz, f, "00:00", start, 8)
                    i = x.real()
                    if cal.rank(f) > cal.rank(longest(left, right)):
                        rec.raises(lambda: fn(i), f"{left}-{right} on {f}", ValueError)
                        continue
                    want = oracle(x, left, right, days)
                    check(fn, i, x, want, f"{left}-{right} {days}")
                    rec.state(x.key(), want)
                    rec.outcome("some" if any(want) else "none")
    elif t == "duration":
        run_duration(group, rec, tier)
    elif t == "german":
        for tz, wins in DAYS.items():
            for start, nd in wins:
                for f in ("15min", "h")[: 1 if tz == "Australia/Lord_Howe" else 2]:
                    x = fixix(tz, f, "00:00", start, 8)
                    i = x.real()
                    want = oracle(x, dt.time(8), dt.time(20), [1, 2, 3, 4, 5])
                    with rec.case(tz=tz, start=start, f=f):
                        rec.step(2)
                        check(pf.germanpower_peakfn, i, x, want, "german")
                        check(pf.create_peakfn(dt.time(8), dt.time(20)), i, x, want, "default weekdays")
                        rec.state(x.key())
                x = fixix(tz, "D", "00:00", start, 8)
                with rec.case(tz=tz, start=start, f="D"):
                    rec.raises(lambda: pf.germanpower_peakfn(x.real()), "german on days", ValueError)
    else:
        for left, right in [(dt.time(8, 5), None), (None, dt.time(20, 1)), (dt.time(8, 10), dt.time(20, 10)), (dt.time(8), dt.time(20, 59))]:
            with rec.case(left=str(left), right=str(right)):
                rec.raises(lambda: pf.create_peakfn(left, right), "not on quarter-hour", ValueError)
        for left, right in [(None, None), (dt.time(8), dt.time(20)), (dt.time(7, 30), None), (None, dt.time(20, 15))]:
            fn = pf.create_peakfn(left, right)
            for tz in DAYS:
                for f in ("15min", "h", "D", "MS", "QS", "YS", "QS-FEB", "YS-APR"):
                    st = "2020-04-01" if "APR" in f else "2020-02-01" if "FEB" in f else "2020-01-01"
                    i = fixix(tz, f, "00:00", "2020-01-01", 3).real() if f in cal.FIXED else pfm.ix(tz, f, "00:00", st, 2).real()
                    with rec.case(left=str(left), right=str(right), tz=tz, f=f):
                        if cal.rank(f) > cal.rank(longest(left, right)):
                            rec.raises(lambda: fn(i), f"{left}-{right} on {f}", ValueError)
                        else:
                            rec.expect(len(fn(i)) == len(i), "length")
                            rec.state(f, str(left), str(right))


def run_duration(group, rec, tier):
    import portfolyo as pf
    from portfolyo import tools

    tz, sod = group["tz"], group["sod"]
    fns = [
        (dt.time(8), dt.time(20), [1, 2, 3, 4, 5]),
        (None, None, [6, 7]),
        (dt.time(2), dt.time(3), [1, 2, 3, 4, 5, 6, 7]),
        (dt.time(22, 30), None, [1, 3, 7]),
        (None, dt.time(2, 15), [7]),
    ]
    wins = [
        ("15min", "2020-03-28", 3), ("15min", "2020-10-24", 3), ("h", "2020-03-28", 3), ("h", "2020-10-24", 3), ("h", "2020-10-31", 3),
        ("D", "2020-03-27", 5), ("D", "2020-10-24", 10), ("MS", "2020-02-01", 3), ("MS", "2020-10-01", 3), ("QS", "2020-01-01", 2),
        ("QS-FEB", "2020-02-01", 1), ("YS", "2020-01-01", 1),
    ]  # fmt: skip
    for f, start, n in wins:
        x = fixix(tz, f, sod, start, n) if f in cal.FIXED else pfm.ix(tz, f, sod, start, n)
        i = x.real()
        for k, (left, right, days) in enumerate(fns):
            if tier == "quick" and cal.rank(f) >= 4 and longest(left, right) == "15min":
                continue
            with rec.case(f=f, start=start, fn=k):
                fn = pf.create_peakfn(left, right, days)
                ef = longest(left, right)  # longest frequency for which the function can be evaluated
                if cal.rank(f) <= cal.rank(ef):
                    ev = x.bounds
                else:
                    ev, _ = cal.upsample(x.bounds, [0.0] * x.n, ef, sod, tz, "avg")
                e = pfm.Ix(tz, ef, sod, ev)
                flags = oracle(e, left, right, days)
                want = []
                for a, b in zip(x.bounds, x.bounds[1:]):
                    want.append(sum((q - p) / 3600 for p, q, ok in zip(e.bounds, e.bounds[1:], flags) if ok and a <= p < b))
                rec.step(2)
                got = tools.peakfn.peak_duration(i, fn)
                off = tools.peakfn.offpeak_duration(i, fn)
                pfm.cmp_series(got, want, "duration", x, "peak duration")
                pfm.cmp_series(off, [d - p for d, p in zip(x.dur, want)], "duration", x, "offpeak duration")
                rec.state(x.key(), k, want[:20])
                rec.outcome("duration")
