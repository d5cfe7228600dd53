"""C13: trimming keeps exactly the complete target periods."""

import pandas as pd

from .. import cal, pfm, real
from ..engine import Mismatch
from . import c09

PROP = "C13"
TECHNIQUE = "exhaustive enumeration of delivery windows x frequency pairs x calendars on the real trimming functions against a first-principles calendar"
EXPLANATION = (
    "Every (timezone, start-of-day, index frequency, target frequency, start, end) window around period boundaries and DST"
    " changes - also windows that end in the middle of a day or start off the hour - is trimmed as index, series and"
    " dataframe; the timestamps kept must be exactly those in complete target periods; trimming twice changes nothing."
)
ASSUMPTIONS = ["for (quarter)hourly indices the first timestamp defines the start-of-day (documented); quarters and years of different anchors are not combined"]
TZS = [None, "Europe/Berlin", "America/New_York", "Asia/Kolkata"]
SRC = ["15min", "h", "D", "MS", "QS", "YS", "QS-FEB"]
TGT = ["15min", "h", "D", "MS", "QS", "YS", "QS-FEB", "YS-APR", "YS-FEB"]


def comparable(f1, f2):
    (b1, a1), (b2, a2) = cal.parse_freq(f1), cal.parse_freq(f2)
    if b1 in ("QS", "YS") and b2 in ("QS", "YS"):
        return f1 == f2 or (cal.rank(f1) < cal.rank(f2) and a1 % 3 == a2 % 3)
    return True


def groups(tier):
    return [
        {"fs": fs, "ft": ft, "tz": tz, "sod": sod}
        for fs in SRC
        for ft in TGT
        for tz in TZS
        for sod in ("00:00", "06:00")
        if comparable(fs, ft)
    ]


def windows(fs, ft, tz, sod, tier):
    """-> bounds lists"""
    base_s, base_t = cal.parse_freq(fs)[0], cal.parse_freq(ft)[0]
    if fs == "QS-FEB":
        for m in (2, 5, 8, 11):
            for n in range(1, 10):
                yield cal.periods(cal.local2sec(c09.dt.datetime(2019, m, 1, int(sod[:2])), tz), fs, tz, n)
        return
    if cal.rank(fs) > cal.rank(ft):
        ft_w = "MS" if base_s in ("D", "MS") else "YS"
        ws = c09.windows(fs, ft_w, "quick")[::3]
    else:
        ws = c09.windows(fs, base_t, "quick" if base_s == "15min" else tier)
        if ft == "YS-APR" and fs in ("D", "MS"):
            d = c09.d
            if fs == "D":
                ws = [(a, b) for a in c09.around("2019-04-01", "2020-04-01") for b in c09.around("2020-04-01", "2021-04-01") if a < b]
        if ft == "QS-FEB" and fs == "D":
            ws = [(a, b) for a in c09.around("2020-02-01", "2020-01-31", "2020-05-01") for b in c09.around("2020-05-01", "2020-08-01") if a < b]
    if fs in cal.FIXED and cal.rank(ft) > 2 and tier != "thorough":
        ws = ws[:: 4 if fs == "15min" else 2]
    for k, (a, b) in enumerate(ws):
        x = c09.mk_ix(tz, fs, sod, a, b)
        yield x.bounds
        if fs in cal.FIXED:
            # ends in the middle of a day / hour
            for cut in (1, 3, 17) if k % 3 == 0 or tier == "thorough" else (2,):
                if len(x.bounds) - cut > 1:
                    yield x.bounds[:-cut]
            if cal.rank(ft) <= 1 and fs == "15min":
                for a_, b_ in ((1, 0), (2, 1), (3, 2), (1, 3)):
                    yield x.bounds[a_ : len(x.bounds) - b_]
                yield x.bounds[1:4]
                yield x.bounds[2:5]


def run(group, rec, tier):
    from portfolyo import tools

    fs, ft, tz, sod = group["fs"], group["ft"], group["tz"], group["sod"]
    for k, bounds in enumerate(windows(fs, ft, tz, sod, tier)):
        with rec.case(start=bounds[0], end=bounds[-1]):
            i = pd.date_range(real.stamp(bounds[0], tz), periods=len(bounds) - 1, freq=fs)
            if real.secs(i) != bounds[:-1]:
                raise RuntimeError("harness index")
            effsod = f"{i[0].hour:02}:{i[0].minute:02}"
            nb = cal.cover(bounds, ft, effsod, tz)
            exp = [s for s in bounds[:-1] if nb and nb[0] <= s < nb[-1]]
            if cal.rank(ft) <= cal.rank(fs):
                exp = bounds[:-1]
            ids = [bounds.index(exp[0]), bounds.index(exp[0]) + len(exp)] if exp else [0, 0]
            vals = [float(v % 97) for v in range(len(i))]
            out = tools.trim.index(i, ft)
            rec.step()
            cmp(out, exp, tz, fs, "index")
            rec.outcome("empty" if not exp else "all" if len(exp) == len(i) else "part")
            rec.state(tz, fs, ft, exp[:1], exp[-1:])
            if real.secs(i) != bounds[:-1]:
                raise Mismatch("input index was changed")
            if exp:
                cmp(tools.trim.index(out, ft), exp, tz, fs, "index again")
                rec.step()
            which = k % 3 if tier != "thorough" else None
            s = pd.Series(vals, i, name="foo")
            if which in (0, None):
                o = tools.trim.frame(s, ft)
                check(o, vals[slice(*ids)], exp, tz, fs, None)
            if which in (1, None):
                o = tools.trim.frame(s.astype("pint[MWh]"), ft)
                check(o, vals[slice(*ids)], exp, tz, fs, "MWh")
            if which in (2, None):
                df = pd.DataFrame({"foo": s, ("a", "b"): s.astype("pint[Eur]") * 2})
                o = tools.trim.frame(df, ft)
                if list(o.columns) != list(df.columns):
                    raise Mismatch(f"columns {o.columns}")
                check(o["foo"], vals[slice(*ids)], exp, tz, fs, None)
                if not real.allclose(real.mags(o[("a", "b")]), [2 * v for v in vals[slice(*ids)]]) or not real.same_unit(o[("a", "b")], "Eur"):
                    raise Mismatch("second column")
            rec.step()


def cmp(i, exp, tz, fs, what):
    if not isinstance(i, pd.DatetimeIndex) or real.secs(i) != exp:
        raise Mismatch(f"{what}: {list(map(str, i[:1]))}..{list(map(str, i[-1:]))} n={len(i)}; expected {[str(real.stamp(e, tz)) for e in exp[:1] + exp[-1:]]} n={len(exp)}")
    if real.tzname(i.tz) != tz or not pfm.same_freq(i.freqstr, fs):
        raise Mismatch(f"{what}: tz {i.tz} freq {i.freqstr}")


def check(o, vals, exp, tz, fs, unit):
    cmp(o.index, exp, tz, fs, "frame")
    if not real.same_unit(o, unit) or o.name != "foo" or not real.allclose(real.mags(o), vals):
        raise Mismatch(f"values {real.fmt(real.mags(o))} != {real.fmt(vals)} ({o.name}, {o.dtype})")
