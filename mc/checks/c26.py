"""C26: product delivery periods are correct."""

import datetime as dt

import pandas as pd

from .. import cal, real
from ..engine import Mismatch

PROP = "C26"
TECHNIQUE = "exhaustive enumeration of all trading dates of leap and non-leap years x products x front counts x timezones x start-of-days, and of all single bounds and pairs of bounds, on the real functions against a first-principles calendar"
EXPLANATION = (
    "For every trading date of the years, every product, front count, timezone, start-of-day and several trading times, start"
    " and end of the delivery period are compared with the calendar; consecutive front counts must tile.  Bounds completion is"
    " run for every date as left or right bound, given as timestamp, text, date or datetime, and for all ordered and unordered"
    " pairs of a date grid with equal and distinct timezones and times."
)
ASSUMPTIONS = ["the year product is specified with 'y' (as in the error message; the docstring lists 'a')"]
TZS = [None, "Europe/Berlin", "America/New_York", "Asia/Kolkata", "UTC"]
PRODUCTS = ["d", "m", "q", "s", "y"]
TIMES = [(0, 0), (5, 0), (12, 30), (23, 59), (2, 30)]


def groups(tier):
    ys = (2019, 2020, 2021, 2022, 2023, 2024) if tier == "thorough" else (2020, 2021)
    sods = (None, "00:00", "06:00", "05:30", "23:00")
    out = [{"part": "product", "tz": tz, "y": y, "sod": sod} for i, tz in enumerate(TZS) for j, y in enumerate(ys) for k, sod in enumerate(sods) if tier == "thorough" or (i + j + k) % 2]
    out += [{"part": "one", "tz": tz, "y": y} for tz in TZS for y in ys]
    out += [{"part": "two", "tz": tz, "tz2": t2} for tz in TZS for t2 in TZS]
    return out + [{"part": "none", "tz": tz} for tz in TZS]


def season(d):
    """first day of season (half-year from April or October) with date d"""
    q = cal.floor_date(d, "QS")
    return q if q.month in (4, 10) else cal.add_date(q, "QS", -1)


def product(d, kind, n):
    """-> first days of product and of next product"""
    if kind == "d":
        return d + dt.timedelta(days=n), d + dt.timedelta(days=n + 1)
    if kind == "s":
        s = season(d)
        return cal.add_date(s, "QS", 2 * n), cal.add_date(s, "QS", 2 * n + 2)
    f = {"m": "MS", "q": "QS", "y": "YS"}[kind]
    s = cal.floor_date(d, f)
    return cal.add_date(s, f, n), cal.add_date(s, f, n + 1)


def cmp(ts, s, tz, what):
    if not isinstance(ts, pd.Timestamp) or real.tzname(ts.tz) != tz or real.ts_sec(ts) != s:
        raise Mismatch(f"{what}: {ts!r}, expected {real.stamp(s, tz)}")


def make(d, time, tz):
    try:
        return pd.Timestamp(year=d.year, month=d.month, day=d.day, hour=time[0], minute=time[1], tz=tz)
    except Exception:
        return None  # time does not exist, or is not unique, on this day


def run_product(tools, rec, tz, y, sod, tier):
    t = None if sod is None else cal.sod_time(sod)
    d, k = dt.date(y, 1, 1), 0
    while d.year == y:
        k += 1
        for time in TIMES if tier == "thorough" else (TIMES[k % 5],):
            ts = make(d, time, tz)
            if ts is None:
                continue
            if time == (23, 59):
                ts = ts + pd.Timedelta(seconds=59.5)
            for kind in PRODUCTS:
                with rec.case(date=str(d), time=time, kind=kind):
                    prev = None
                    for n in range(-2, 14) if tier == "thorough" else (-1, 0, 1, 2, 5):
                        a, b = tools.product.delivery_period(ts, kind, n, t)
                        rec.step()
                        ea, eb = (cal.combine(x, sod or "00:00", tz) for x in product(d, kind, n))
                        cmp(a, ea, tz, f"start of {kind}{n}")
                        cmp(b, eb, tz, f"end of {kind}{n}")
                        if n >= 1 and not a > ts.normalize():
                            raise Mismatch("product starts before trading date")
                        if prev is not None and prev[0] == n - 1 and prev[1] != a:
                            raise Mismatch(f"gap or overlap between {kind}{n - 1} and {kind}{n}")
                        prev = n, b
                    rec.state(tz, sod, str(d), kind)
        d += dt.timedelta(days=1)
    ts = pd.Timestamp(y, 1, 1, tz=tz)
    with rec.case(defaults=True):
        a, b = tools.product.delivery_period(ts)
        cmp(a, cal.combine(dt.date(y, 2, 1), "00:00", tz), tz, "default")
        cmp(b, cal.combine(dt.date(y, 3, 1), "00:00", tz), tz, "default")
    for bad in ("x", "ms", "Q", "", None):
        with rec.case(bad=bad):
            rec.raises(lambda: tools.product.delivery_period(ts, bad), f"period type {bad}")


def forms(d, time, tz):
    """-> (input, tz parameter, start of day parameter); all mean (d, time, tz)"""
    ts = make(d, time, tz)
    if ts is None:
        return
    t = dt.time(*time)
    yield ts, None, None
    yield ts, "Asia/Tokyo", dt.time(3)
    yield f"{d} {time[0]:02}:{time[1]:02}", tz, None
    yield str(d), tz, t
    yield d, tz, t
    yield dt.datetime.combine(d, t), tz, None
    if time != (0, 0):
        yield f"{d} {time[0]:02}:{time[1]:02}", tz, dt.time(9)


def run_one(tools, rec, tz, y, tier):
    d = dt.date(y, 1, 1)
    k = 0
    while d.year == y:
        for time in ((0, 0), (6, 0), (5, 15)):
            k += 1
            s = cal.combine(d, f"{time[0]:02}:{time[1]:02}", tz)
            at = lambda x: cal.combine(x, f"{time[0]:02}:{time[1]:02}", tz)
            for nr, (inp, ptz, psod) in enumerate(forms(d, time, tz)):
                if tier != "thorough" and (nr + k) % 3 and d.day not in (1, 2, 28, 29, 30, 31):
                    continue
                with rec.case(date=str(d), time=time, form=nr, which="left"):
                    for none in (None, pd.NaT):
                        a, b = tools.leftandright.stamps(inp, none, ptz, psod)
                        cmp(a, s, tz, "left, given")
                        cmp(b, at(dt.date(y + 1, 1, 1)), tz, "right")
                with rec.case(date=str(d), time=time, form=nr, which="right"):
                    start = dt.date(y, 1, 1) if d != dt.date(y, 1, 1) else dt.date(y - 1, 1, 1)
                    a, b = tools.leftandright.stamps(None, inp, ptz, psod)
                    cmp(a, at(start), tz, "left")
                    cmp(b, s, tz, "right, given")
                rec.step(3)
                rec.state(tz, str(d), time, nr)
        d += dt.timedelta(days=1)


def run_two(tools, rec, tz, tz2):
    ds = [dt.date(2019, 12, 31), dt.date(2020, 1, 1), dt.date(2020, 2, 29), dt.date(2020, 3, 29), dt.date(2020, 3, 30), dt.date(2020, 10, 25), dt.date(2020, 12, 31), dt.date(2021, 1, 1)]
    for a in ds:
        for b in ds:
            for t1 in ((0, 0), (6, 0), (6, 15)):
                for t2 in ((0, 0), (6, 0), (6, 15)):
                    for form in range(3):
                        with rec.case(a=str(a), b=str(b), t1=t1, t2=t2, form=form):
                            x, y = make(a, t1, tz), make(b, t2, tz2)
                            ptz = "Asia/Tokyo"
                            if form == 1 and tz == tz2:  # text
                                x, y, ptz = f"{a} {t1[0]:02}:{t1[1]:02}", f"{b} {t2[0]:02}:{t2[1]:02}", tz
                            if form == 2:  # one is text
                                x, ptz = f"{a} {t1[0]:02}:{t1[1]:02}", tz
                            fn = lambda: tools.leftandright.stamps(x, y, ptz, None if t1 == (0, 0) else dt.time(*t1))
                            exp1, exp2 = (cal.combine(d, f"{t[0]:02}:{t[1]:02}", z) for d, t, z in ((a, t1, tz), (b, t2, tz2)))
                            if form == 1 and tz == tz2 and (0, 0) in (t1, t2) and t1 != t2:
                                continue  # start-of-day parameter is used for midnight
                            if tz != tz2 or t1 != t2:
                                rec.raises(fn, "distinct timezone or time")
                                continue
                            l, r = fn()
                            rec.step()
                            cmp(l, min(exp1, exp2), tz, "left")
                            cmp(r, max(exp1, exp2), tz, "right")
                            rec.state(tz, str(a), str(b), t1)


def run_none(tools, rec, tz):
    for sod in (None, "00:00", "06:00", "05:15"):
        with rec.case(sod=sod):
            t = None if sod is None else cal.sod_time(sod)
            y0 = pd.Timestamp.now(tz=tz).year
            a, b = tools.leftandright.stamps(tz=tz, start_of_day=t)
            y1 = pd.Timestamp.now(tz=tz).year
            rec.step()
            ok = False
            for y in {y0, y1, y0 - (1 if sod else 0) if dt.date.today().timetuple().tm_yday < 3 else y0}:
                e = [cal.combine(dt.date(y + n, 1, 1), sod or "00:00", tz) for n in (1, 2)]
                ok = ok or (real.ts_sec(a), real.ts_sec(b)) == tuple(e)
            if not ok or {real.tzname(a.tz), real.tzname(b.tz)} != {tz}:
                raise Mismatch(f"{a}, {b}")
            rec.state(tz, sod)


def run(group, rec, tier):
    from portfolyo import tools

    p = group["part"]
    if p == "product":
        run_product(tools, rec, group["tz"], group["y"], group["sod"], tier)
    elif p == "one":
        run_one(tools, rec, group["tz"], group["y"], tier)
    elif p == "two":
        run_two(tools, rec, group["tz"], group["tz2"])
    else:
        run_none(tools, rec, group["tz"])
