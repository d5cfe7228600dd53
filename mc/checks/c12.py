"""C12: delivery-period boundaries (isboundary, floor, ceil, right, duration, start-of-day, timestamp creation)."""

import datetime as dt

import pandas as pd

from .. import cal, pfm, real
from ..engine import Mismatch

PROP = "C12"
TECHNIQUE = "exhaustive enumeration of timestamps x frequency x start-of-day x timezone x number of periods on the real functions against a first-principles calendar"
EXPLANATION = (
    "Every quarter-hour (plus sub-quarter-hour offsets) of every day of interest (DST changes, leap days, month/quarter/year"
    " ends) x frequency (also quarters/years starting in other months) x start-of-day x timezone x -3..+3 periods is rounded"
    " up and down and tested for being a boundary; right-bound timestamps, durations and boundary masks of all index windows"
    " are compared with the calendar and with the single-timestamp functions."
)
ASSUMPTIONS = [
    "start-of-day is never inside a nonexistent or repeated hour; timezones with a DST change at midnight are not included",
    "quick: seven timezones and 24 days (of 1969 to 2032); thorough: all days of two years around the interesting ones",
]
TZS = [None, "Europe/Berlin", "America/New_York", "Asia/Kolkata", "Australia/Adelaide", "Asia/Kathmandu", "Europe/London"]
SODS = [None, "06:00", "15:30", "23:45"]
FREQS = ["15min", "h", "D", "MS", "QS", "YS", "QS-FEB", "QS-OCT", "YS-APR", "YS-DEC"]
DAYS = [
    "2020-02-28", "2020-02-29", "2020-03-01", "2020-03-28", "2020-03-29", "2020-03-30", "2020-03-31", "2020-04-01",
    "2020-10-24", "2020-10-25", "2020-10-26", "2020-10-31", "2020-11-01", "2020-11-02", "2020-12-31", "2021-01-01",
    "2021-01-02", "2021-03-14", "2021-02-28", "2020-04-05",
    "1969-12-31", "2000-02-29", "1999-03-28", "2032-12-31",
]  # fmt: skip
SUB = [0, 1, 60, 437, 899]  # seconds into the quarterhour
ALLF = [*FREQS, "QS-MAR", "YS-FEB", "YS-JUL", "QS-DEC"]


def groups(tier):
    out = []
    for tz in TZS:
        for k, day in enumerate(DAYS):
            if tier != "thorough" and tz in ("Asia/Kolkata", "Asia/Kathmandu", None, "Europe/London") and k % 2:
                continue
            out.append({"t": "stamp", "tz": tz, "day": day})
    if tier == "thorough":
        for tz in TZS:
            for m in range(1, 25):
                out.append({"t": "month", "tz": tz, "m": m})
    for tz in TZS[:5] if tier != "thorough" else TZS:
        for f in ["15min", "h", "D", "MS", "QS", "YS", "QS-FEB", "YS-APR"]:
            out.append({"t": "index", "tz": tz, "freq": f})
    out.append({"t": "create"})
    return out


def t(sod):
    return None if sod is None else dt.time.fromisoformat(sod)


def stamps_of(day, tz, step=900):
    d = dt.date.fromisoformat(day)
    s = cal.combine(d, "00:00", tz)
    e = cal.combine(d + dt.timedelta(days=1), "00:00", tz)
    return range(s, e, step)


def check_stamp(rec, ts, s, f, sod, tz, futures):
    from portfolyo import tools

    sd = sod or "00:00"
    lo = cal.floor(s, f, sd, tz)
    hi = lo if lo == s else cal.nxt(lo, f, sd, tz)
    got = tools.isboundary.stamp(ts, f, t(sod))
    if bool(got) != (lo == s):
        raise Mismatch(f"isboundary {ts} {f} {sod}: {got}")
    for name, fn, b in (("floor", tools.floor.stamp, lo), ("ceil", tools.ceil.stamp, hi)):
        for k in futures:
            x = fn(ts, f, k, t(sod))
            rec.transitions += 1
            e = cal.nxt(b, f, sd, tz, k) if k else b
            if real.ts_sec(x) != e or real.tzname(x.tz) != tz:
                raise Mismatch(f"{name}({ts}, {f}, {k}, {sod}) = {x}, expected {real.stamp(e, tz)}")
    if lo == s:
        r, h = tools.right.stamp(ts, f), tools.duration.stamp(ts, f)
        rec.transitions += 2
        if real.ts_sec(r) != hi_of(lo, f, sd, tz):
            raise Mismatch(f"right({ts}, {f}) = {r}")
        if not real.close(h.magnitude, (hi_of(lo, f, sd, tz) - lo) / 3600) or str(h.units) not in ("hour", "h"):
            raise Mismatch(f"duration({ts}, {f}) = {h}")
        if ts.right(f) != r or ts.duration(f) != h:
            raise Mismatch(f"timestamp attributes differ {ts} {f}")


def hi_of(lo, f, sd, tz):
    return cal.nxt(lo, f, sd, tz)


def run(group, rec, tier):
    from portfolyo import tools

    tz = group.get("tz")
    if group["t"] == "stamp":
        deep = tier == "thorough"
        for j, s0 in enumerate(stamps_of(group["day"], tz)):
            tod = cal.sec2local(s0, tz).time()
            near = tod.hour < 4 or tod.hour == 23 or (tod.hour, tod.minute) in ((5, 45), (6, 0), (15, 15), (15, 30), (15, 45))
            for sub in SUB if deep else SUB[:1] + SUB[1 + j % 4 : 2 + j % 4]:
                s = s0 + sub
                ts = real.stamp(s, tz)
                for jf, f in enumerate(FREQS):
                    if not (deep or near or (j + jf) % 8 == 0):
                        continue
                    sods = SODS if cal.rank(f) >= 2 else SODS[:2]
                    if not deep:
                        sods = [sods[(j // 2 + jf) % len(sods)], *([None] if near and jf % 4 == j % 4 else [])]
                    for sod in sods:
                        futures = range(-3, 4) if deep or (near and sub == 0 and (j + jf) % 4 == 0) else (0, 1 if j % 2 else -1)
                        with rec.case(s=s, f=f, sod=sod):
                            check_stamp(rec, ts, s, f, sod, tz, futures)
                            rec.state(tz, f, sod, cal.floor(s, f, sod or "00:00", tz), s == s0)
    elif group["t"] == "month":
        d = dt.date(2019 + (group["m"] + 5) // 12, (group["m"] + 5) % 12 + 1, 1)
        for k in range(31):
            day = d + dt.timedelta(days=k)
            for s0 in stamps_of(str(day), tz, 3600):
                for sub in (0, 900, 1337, 3599):
                    s = s0 + sub
                    for f in ALLF:
                        for sod in SODS[:2]:
                            with rec.case(s=s, f=f, sod=sod):
                                check_stamp(rec, real.stamp(s, tz), s, f, sod, tz, (0, 2))
                                rec.state(tz, f, sod, cal.floor(s, f, sod or "00:00", tz), sub == 0)
    elif group["t"] == "index":
        run_index(group, rec, tier)
    else:
        run_create(rec)


def ix_windows(freq, tz, sod, tier):
    from .c03 import daysix

    if freq in cal.FIXED:
        for a in ("2020-03-28", "2020-03-29", "2020-10-24", "2020-10-25", "2020-10-31", "2020-11-01", "2020-12-31", "2020-02-28"):
            for n in (1, 2, 3):
                yield daysix(tz, freq, sod, dt.date.fromisoformat(a), n)
        return
    base, anchor = cal.parse_freq(freq)
    if base == "D":
        for a in ("2020-02-27", "2020-03-28", "2020-03-29", "2020-03-30", "2020-10-24", "2020-10-25", "2020-10-30", "2020-11-01", "2020-12-30", "2021-03-13"):
            for n in (1, 2, 3, 5, 40):
                yield pfm.ix(tz, freq, sod, a, n)
        return
    d0 = cal.floor_date(dt.date(2019, 1, 1), freq)
    for k in range(0, 14 if base != "YS" else 4):
        for n in (1, 2, 3, 4, 5, 13) if base != "YS" else (1, 2, 3):
            yield pfm.ix(tz, freq, sod, str(cal.add_date(d0, freq, k)), n)


def run_index(group, rec, tier):
    from portfolyo import tools

    tz, freq = group["tz"], group["freq"]
    for sod in ("00:00", "06:00", "23:00" if freq == "h" else "23:45"):
        for x in ix_windows(freq, tz, sod, tier):
            with rec.case(sod=sod, start=x.bounds[0], n=x.n):
                i = x.real()
                if real.secs(i) != x.starts:
                    raise RuntimeError("harness index")
                rec.step(4)
                for r in (tools.right.index(i), i.right):
                    if real.secs(r) != x.bounds[1:] or real.tzname(r.tz) != tz:
                        raise Mismatch(f"right.index {list(r[:3])}")
                for h in (tools.duration.index(i), i.duration, tools.duration.frame(pd.Series(1.0, i))):
                    pfm.cmp_series(h, x.dur, "duration", x, "duration")
                if real.secs(i) != x.starts:
                    raise Mismatch("index was changed")
                g = tools.startofday.get(i)
                if g != dt.time.fromisoformat(sod) or tools.startofday.get(i, "str") != sod + ":00":
                    raise Mismatch(f"startofday.get {g}")
                td = tools.startofday.get(i, "timedelta")
                if td != dt.timedelta(hours=g.hour, minutes=g.minute):
                    raise Mismatch(f"startofday.get timedelta {td}")
                rec.state(x.key())
                for j, ts in enumerate(i[: 3 if x.n > 30 else None]):
                    rec.step()
                    if real.ts_sec(tools.right.stamp(ts, freq)) != x.bounds[j + 1]:
                        raise Mismatch(f"right.stamp {ts}")
                    if not real.close(tools.duration.stamp(ts, freq).to("h").magnitude, x.dur[j]):
                        raise Mismatch(f"duration.stamp {ts}")
            for f in FREQS:
                if not comparable(freq, f):
                    continue
                with rec.case(sod=sod, start=x.bounds[0], n=x.n, f=f):
                    b = tools.isboundary.index(i, f)
                    rec.step()
                    up = cal.rank(f) < cal.rank(freq)
                    exp = [True if up else cal.is_boundary(s, f, sod, tz) for s in x.starts]
                    if list(map(bool, b)) != exp or real.secs(b.index) != x.starts:
                        k = next(k for k in range(x.n) if bool(b.iloc[k]) != exp[k])
                        raise Mismatch(f"isboundary.index {f} at {i[k]}: {b.iloc[k]}")
            for new in ("00:00", "06:00", "10:15"):
                if tier != "thorough" and x.n > 200:
                    continue
                with rec.case(sod=sod, start=x.bounds[0], n=x.n, new=new):
                    set_sod(rec, i, x, new)


def comparable(f1, f2):
    b1, a1 = cal.parse_freq(f1)
    b2, a2 = cal.parse_freq(f2)
    if b1 in ("QS", "YS") and b2 in ("QS", "YS"):
        return f1 == f2 or (cal.rank(f1) < cal.rank(f2) and a1 % 3 == a2 % 3)
    return True


def set_sod(rec, i, x, new):
    from portfolyo import tools

    fn = lambda: tools.startofday.set(i, dt.time.fromisoformat(new))  # noqa
    if x.freq not in cal.FIXED:
        out = fn()
        rec.step()
        exp = [cal.combine(cal.sec2local(s, x.tz).date(), new, x.tz) for s in x.starts]
        if real.secs(out) != exp or real.tzname(out.tz) != x.tz or not pfm.same_freq(out.freqstr, x.freq):
            raise Mismatch(f"startofday.set {out[:2]}")
        return
    at = [s for s in x.bounds if cal.sec2local(s, x.tz).time() == cal.sod_time(new)]
    if len(at) < 2:
        rec.raises(fn, "no full day")
        return
    out = fn()
    rec.step()
    exp = [s for s in x.starts if at[0] <= s < at[-1]]
    if real.secs(out) != exp or real.tzname(out.tz) != x.tz:
        raise Mismatch(f"startofday.set {out[:1]}..{out[-1:]} (n={len(out)}), expected n={len(exp)}")


def run_create(rec):
    from portfolyo import tools

    for tz in TZS:
        for sod in SODS:
            for day in DAYS:
                d = dt.date.fromisoformat(day)
                for tod in ("", "00:00", "05:15", "12:00"):
                    with rec.case(tz=tz, sod=sod, day=day, tod=tod):
                        txt = f"{day} {tod}".strip()
                        eff = tod if tod not in ("", "00:00") else (sod or "00:00")
                        exp = cal.combine(d, eff, tz)
                        forms = [txt]
                        if tod:
                            forms.append(dt.datetime.combine(d, dt.time.fromisoformat(tod)))
                        else:
                            forms.append(d)
                        for f in forms:
                            x = tools.stamp.create(f, tz, t(sod))
                            rec.step()
                            if real.ts_sec(x) != exp or real.tzname(x.tz) != tz:
                                raise Mismatch(f"create({f!r}, {tz}, {sod}) = {x}")
                        for tz2 in ("Europe/Berlin", None):
                            ts = pd.Timestamp(txt, tz=tz2)
                            if tools.stamp.create(ts, tz, t(sod)) is not ts and tools.stamp.create(ts, tz, t(sod)) != ts:
                                raise Mismatch("timestamp was changed")
                        rec.state(tz, exp)
    with rec.case(none=True):
        if tools.stamp.create(None) is not pd.NaT:
            raise Mismatch("create(None)")
    for f in ["2D", "W", "ME", "30min", "x"]:
        with rec.case(bad=f):
            ts = pd.Timestamp("2020-01-01 03:00")
            for fn in (tools.floor.stamp, tools.ceil.stamp):
                rec.raises(lambda: fn(ts, f), f"frequency {f}")
            rec.raises(lambda: tools.isboundary.stamp(ts, f), f"frequency {f}")
            rec.raises(lambda: tools.right.stamp(ts, f), f"frequency {f}")
            rec.raises(lambda: tools.duration.stamp(ts, f), f"frequency {f}")
    for bad in ("06:10", "00:01"):
        with rec.case(badsod=bad):
            i = pd.date_range("2020-01-01", periods=3, freq="D")
            rec.raises(lambda: tools.startofday.set(i, dt.time.fromisoformat(bad)), "start-of-day not on quarterhour")
