"""C25: mapping to another year keeps calendar structure and values."""

import collections
import datetime as dt
import functools

import holidays
import pandas as pd

from .. import cal, pfm, real
from ..engine import Mismatch
from ..pfm import MP, Ix

PROP = "C25"
TECHNIQUE = "exhaustive enumeration of (source year, target year, month window, timezone, frequency, holiday country) on the real mapping functions against the documented mapping rules stated over a first-principles calendar"
EXPLANATION = (
    "Every calendar month of every source year is mapped to every target year (daily; and (quarter)hourly for months with"
    " DST changes and for a subset of year pairs), as well as longer windows (over the turn of the year, more than a year);"
    " every timestamp of the target must be there, and must be a copy of a source value of the same calendar month, fixed"
    " month-to-month, at the same time since start of day, of a day of the same length and the same type (weekday, holiday),"
    " with minimal repetition, and with identity for months that exist in both.  Portfolio lines are mapped for all kinds and"
    " structures, and compared with the model in all respects."
)
ASSUMPTIONS = ["the holidays library is trusted for the dates and names of holidays"]
CONFIGS = [("Europe/Berlin", "DE", "00:00"), ("Europe/Berlin", "DE", "06:00"), ("America/New_York", "US", "00:00"), (None, None, "00:00"), (None, "NL", "06:00"), ("Asia/Kolkata", "IN", "00:00")]
MORE = [("Europe/Berlin", None, "00:00"), ("America/New_York", "US", "06:00"), ("Europe/London", "GB", "05:00"), ("Africa/Casablanca", None, "00:00"), (None, "FR", "00:00")]


def groups(tier):
    deep = tier == "thorough"
    out = []
    for c in CONFIGS + MORE:
        for y in range(2016, 2028) if deep else ((2019, 2020) if c in CONFIGS[:4] else (2020,)):
            out.append({"part": "daily", "conf": c, "y": y})
        for y in range(2016, 2028) if deep else (2020,):
            for f in ("h", "15min") if deep or c in CONFIGS[:4] else ("h",):
                out.append({"part": "short", "conf": c, "y": y, "freq": f})
        if deep or c in CONFIGS[:4]:
            out += [{"part": "windows", "conf": c, "sub": n} for n in range(3)]
    for c in [(None, None, "00:00"), ("Europe/Berlin", "DE", "06:00"), ("America/New_York", "US", "00:00")]:
        for f in ("MS", "QS", "QS-FEB", "YS", "YS-APR"):
            out.append({"part": "long", "conf": c, "freq": f})
        for k in pfm.KINDS:
            for f in ("15min", "h", "D", "MS", "QS", "YS"):
                out.append({"part": "line", "conf": c, "k": k, "freq": f})
    return out


@functools.lru_cache(None)
def holiday(country, year):
    return dict(getattr(holidays, country)(years=year)) if country else {}


def hol(country, d):
    return holiday(country, d.year).get(d, "")


def bounds_of(a, b, freq, sod, tz):
    s, e = cal.combine(a, sod, tz), cal.combine(b, sod, tz)
    if freq in cal.FIXED:
        return list(range(s, e + 1, cal.FIXED[freq]))
    out = [s]
    while out[-1] < e:
        out.append(cal.right(out[-1], freq, tz))
    assert out[-1] == e
    return out


class Day:
    __slots__ = ("s", "d", "dur", "hol", "dst", "wd")

    def __init__(self, s, tz, sod, country):
        loc = cal.sec2local(s, tz)
        self.s, self.d = s, loc.date()
        self.dur = cal.right(s, "D", tz) - s
        self.hol, self.dst, self.wd = hol(country, self.d), self.dur != 86400, self.d.isoweekday()


def days(a, b, sod, tz, country):
    return [Day(s, tz, sod, country) for s in bounds_of(a, b, "D", sod, tz)[:-1]]


def kind_ok(t, s, src):
    """May target day t be a copy of source day s; given all source days of that month"""
    if t.dst or s.dst:
        return t.dur == s.dur
    if not t.hol:
        return not s.hol and s.wd == t.wd
    if any(x.hol == t.hol and not x.dst for x in src):
        return s.hol == t.hol
    return bool(s.hol) or s.wd == 7


def months(a, b):
    out, d = [], a
    while d < b:
        out.append((d.year, d.month))
        d = cal.add_date(d, "MS")
    return out


def check_months(src, tgt, used, what):
    """used: target month -> source month"""
    count = collections.Counter(used.values())
    for t in tgt:
        s = used[t]
        if s[1] != t[1]:
            raise Mismatch(f"{what}: {t} is taken from {s}")
        if t in src and s != t:
            raise Mismatch(f"{what}: {t} is taken from {s} though it is in the source")
    for m in {x[1] for x in tgt}:
        c = [count[x] for x in src if x[1] == m]
        if max(c) - min(c) > 1:
            raise Mismatch(f"{what}: month {m} is taken unevenly {c}")


def check_daily(mapping, sdays, tdays, what):
    """mapping: list of source instants (per target day)"""
    byid = {x.s: x for x in sdays}
    bym = collections.defaultdict(list)
    for x in sdays:
        bym[x.d.year, x.d.month].append(x)
    used = {}
    pairs = []
    if len(mapping) != len(tdays):
        raise Mismatch(f"{what}: {len(mapping)} days, expected {len(tdays)}")
    for m, t in zip(mapping, tdays):
        s = byid.get(m)
        if s is None:
            raise Mismatch(f"{what}: {t.d} taken from {m}, not a source day")
        pairs.append((t, s))
        sm, tm = (s.d.year, s.d.month), (t.d.year, t.d.month)
        if used.setdefault(tm, sm) != sm:
            raise Mismatch(f"{what}: values of {tm} are taken from {sm} and {used[tm]}")
        if s.d != t.d and tm in bym:
            raise Mismatch(f"{what}: {t.d} is in source but was taken from {s.d}")
        if not kind_ok(t, s, bym[sm]):
            raise Mismatch(f"{what}: {t.d} (weekday {t.wd} {t.hol!r} {t.dur/3600} h) taken from {s.d} (weekday {s.wd} {s.hol!r} {s.dur/3600} h)")
    check_months(list(bym), list(used), used, what)
    # repetitions are minimal: the days of one type are used equally often
    count = collections.Counter(s.s for t, s in pairs if not (t.dst or t.hol))
    for tm, sm in used.items():
        cnt = collections.Counter(s.s for t, s in pairs if not (t.dst or t.hol) and (t.d.year, t.d.month) == tm)
        for wd in {t.wd for t, s in pairs if not (t.dst or t.hol) and (t.d.year, t.d.month) == tm}:
            c = [cnt[x.s] for x in bym[sm] if x.wd == wd and not x.hol and not x.dst]
            if max(c) - min(c) > 1:
                raise Mismatch(f"{what}: weekday {wd} of {tm}: days of {sm} used unevenly {c}")


def possible(sdays, tdays):
    """every target day has a candidate in every source month that may be used (True), or in none (False), or in some (None)"""
    bym = collections.defaultdict(list)
    for x in sdays:
        bym[x.d.year, x.d.month].append(x)
    res = True
    for t in tdays:
        sms = [(t.d.year, t.d.month)] if (t.d.year, t.d.month) in bym else [m for m in bym if m[1] == t.d.month]
        ok = [any(kind_ok(t, s, bym[sm]) for s in bym[sm]) for sm in sms]
        if not any(ok):
            return False
        if not all(ok):
            res = None
    return res


def attempt(rec, fn, can):
    if can is False:
        rec.raises(fn, "no corresponding day")
        return None
    rec.step()
    try:
        return fn()
    except ValueError:
        if can:
            raise
        return None


def target_window(a, b, year):
    return dt.date(year, a.month, 1), dt.date(year + b.year - a.year, b.month, 1)


def make(i, shape):
    n = len(i)
    v = [float(k) for k in range(n)]
    if shape == 0:
        return pd.Series(v, i, name="foo"), lambda o: [o]
    if shape == 1:
        return pd.Series(v, i).astype("pint[MW]"), lambda o: [o]
    if shape == 2:
        return pd.DataFrame({"w": pd.Series(v, i).astype("pint[MW]"), "p": v}, i), lambda o: [o["w"], o["p"]]
    cols = pd.MultiIndex.from_tuples([("a", "w"), ("b", "p")])
    return pd.DataFrame([[x, x] for x in v], i, columns=cols), lambda o: [o[("a", "w")], o[("b", "p")]]


def decode(out, fr, cols, ebounds, freq, tz, what):
    """-> positions in source per target timestamp"""
    if type(out) is not type(fr):
        raise Mismatch(f"{what}: {type(out)}")
    i = out.index
    if real.secs(i) != ebounds[:-1] or real.tzname(i.tz) != tz or not pfm.same_freq(i.freqstr, freq):
        raise Mismatch(f"{what}: index {i[:1]}..{i[-1:]} ({len(i)}), expected {real.stamp(ebounds[0], tz)} until {real.stamp(ebounds[-1], tz)} ({len(ebounds) - 1}) {freq}")
    if isinstance(fr, pd.Series):
        if out.name != fr.name or out.dtype != fr.dtype:
            raise Mismatch(f"{what}: {out.name} {out.dtype}, was {fr.name} {fr.dtype}")
    elif list(out.columns) != list(fr.columns) or list(out.dtypes) != list(fr.dtypes):
        raise Mismatch(f"{what}: columns {out.columns} {out.dtypes}")
    vals = [[int(x) for x in real.mags(c)] for c in cols(out)]
    if any(v != vals[0] for v in vals):
        raise Mismatch(f"{what}: columns are mapped differently")
    return vals[0]


def do_daily(pf, rec, a, b, y, sod, tz, country, shape):
    ta, tb = target_window(a, b, y)
    with rec.case(start=str(a), end=str(b), year=y, shape=shape):
        sb, tbs = bounds_of(a, b, "D", sod, tz), bounds_of(ta, tb, "D", sod, tz)
        i = pd.date_range(real.stamp(sb[0], tz), periods=len(sb) - 1, freq="D")
        sd, td = days(a, b, sod, tz, country), days(ta, tb, sod, tz, country)
        fr, cols = make(i, shape)
        out = attempt(rec, lambda: pf.map_frame_to_year(fr, y, country), possible(sd, td))
        if out is None:
            return
        pos = decode(out, fr, cols, tbs, "D", tz, "daily")
        check_daily([sb[p] for p in pos], sd, td, f"{a}..{b} -> {y}")
        rec.state(tz, str(a), y, pos)
        if real.secs(i) != sb[:-1]:
            raise Mismatch("input changed")


def do_short(pf, rec, a, b, y, freq, sod, tz, country, shape):
    ta, tb = target_window(a, b, y)
    with rec.case(start=str(a), end=str(b), year=y, shape=shape):
        sb, tbs = bounds_of(a, b, freq, sod, tz), bounds_of(ta, tb, freq, sod, tz)
        i = pd.date_range(real.stamp(sb[0], tz), periods=len(sb) - 1, freq=freq)
        sd, td = days(a, b, sod, tz, country), days(ta, tb, sod, tz, country)
        fr, cols = make(i, shape)
        out = attempt(rec, lambda: pf.map_frame_to_year(fr, y, country), possible(sd, td))
        if out is None:
            return
        pos = decode(out, fr, cols, tbs, freq, tz, freq)
        step = cal.FIXED[freq]
        where, k = [], 0
        starts = {s: n for n, s in enumerate(sb[:-1])}
        for t in td:
            n = t.dur // step
            p = pos[k]
            where.append(sb[p])
            if pos[k : k + n] != list(range(p, p + n)):
                raise Mismatch(f"{t.d} is not a copy of a day: source positions {pos[k:k+n]}")
            k += n
        check_daily(where, sd, td, f"{a}..{b} -> {y}")
        rec.state(tz, freq, str(a), y, [starts[w] for w in where])


def years(tier):
    return range(2014, 2031) if tier == "thorough" else range(2018, 2025)


def run(group, rec, tier):
    import portfolyo as pf

    tz, country, sod = group["conf"]
    D = dt.date
    if group["part"] == "daily":
        for m in range(1, 13):
            a = D(group["y"], m, 1)
            for y in years(tier):
                do_daily(pf, rec, a, cal.add_date(a, "MS"), y, sod, tz, country, (m + y) % 4)
    elif group["part"] == "short":
        f = group["freq"]
        for m in (2, 3, 4, 10, 11, 12):
            a = D(group["y"], m, 1)
            for y in list(years(tier))[:: 2 if f == "h" else 4] if tier != "thorough" else years(tier):
                do_short(pf, rec, a, cal.add_date(a, "MS"), y, f, sod, tz, country, (m + y) % 4)
    elif group["part"] == "windows":
        for n, (a, b) in enumerate([(D(2019, 11, 1), D(2020, 4, 1)), (D(2020, 1, 1), D(2021, 1, 1)), (D(2019, 3, 1), D(2020, 3, 1)), (D(2019, 2, 1), D(2020, 5, 1)), (D(2020, 1, 1), D(2020, 3, 1)), (D(2019, 1, 1), D(2021, 4, 1))]):
            if n % 3 != group["sub"]:
                continue
            for y in (2020, 2021) if tier != "thorough" else range(2016, 2029):
                do_daily(pf, rec, a, b, y, sod, tz, country, n % 4)
        if group["sub"] == 0:
            to_index(pf, rec, tz, country, sod, tier)
    elif group["part"] == "long":
        do_long(pf, rec, group["freq"], sod, tz, tier)
    else:
        do_line(pf, rec, group["k"], group["freq"], sod, tz, country, tier)


def to_index(pf, rec, tz, country, sod, tier):
    """any source window to any target window"""
    D = dt.date
    ends = [D(2019, 11, 1), D(2020, 2, 1), D(2020, 12, 1), D(2021, 2, 1)] + ([D(2021, 4, 1)] if tier == "thorough" else [])
    for a in ends:
        for b in ends:
            for c in ends:
                for d in ends:
                    if not (a < b and c < d) or (b - a).days > 520 or (d - c).days > 400:
                        continue
                    with rec.case(source=[str(a), str(b)], target=[str(c), str(d)]):
                        sb, tb = bounds_of(a, b, "D", sod, tz), bounds_of(c, d, "D", sod, tz)
                        i, j = (pd.date_range(real.stamp(x[0], tz), periods=len(x) - 1, freq="D") for x in (sb, tb))
                        fr, cols = make(i, 0)
                        fn = lambda: pf.tools.changeyear.map_frame_to_index(fr, j, country)
                        have = {m for _, m in months(a, b)}
                        sd, td = days(a, b, sod, tz, country), days(c, d, sod, tz, country)
                        out = attempt(rec, fn, all(m in have for _, m in months(c, d)) and possible(sd, td))
                        if out is None:
                            continue
                        pos = decode(out, fr, cols, tb, "D", tz, "index")
                        check_daily([sb[p] for p in pos], sd, td, f"{a}..{b} -> {c}..{d}")
                        rec.state(tz, str(a), str(b), str(c), pos)


def do_long(pf, rec, freq, sod, tz, tier):
    first = [dt.date(y, m, 1) for y in (2019, 2020) for m in range(1, 13)]
    first = [d for d in first if cal.floor_date(d, freq) == d]
    for a in first:
        for n in (1, 2, 3, 5, 12, 14, 25)[: 7 if freq == "MS" else 5]:
            b = cal.add_date(a, freq, n)
            for y in (2017, 2019, 2020, 2021, 2024) if tier != "thorough" else range(2012, 2032):
                with rec.case(start=str(a), end=str(b), year=y):
                    ta, tb = target_window(a, b, y)
                    sb, tbs = bounds_of(a, b, freq, sod, tz), bounds_of(ta, tb, freq, sod, tz)
                    i = pd.date_range(real.stamp(sb[0], tz), periods=n, freq=freq)
                    fr, cols = make(i, (n + y) % 4)
                    out = pf.map_frame_to_year(fr, y, "DE")
                    rec.step()
                    pos = decode(out, fr, cols, tbs, freq, tz, freq)
                    loc = lambda s: cal.sec2local(s, tz).date()
                    used = {}
                    for t, p in zip(tbs, pos):
                        x, s = loc(t), loc(sb[p])
                        used[x.year, x.month] = (s.year, s.month)
                    check_months([(loc(s).year, loc(s).month) for s in sb[:-1]], list(used), used, f"{a} {n} {freq} -> {y}")
                    rec.state(freq, tz, str(a), n, y, pos)


def do_line(pf, rec, kind, freq, sod, tz, country, tier):
    from portfolyo import tools

    D = dt.date
    if freq == "15min":
        wins, ys = [(D(2020, 3, 1), D(2020, 4, 1))], (2021,)
    elif freq == "h":
        wins, ys = [(D(2020, 2, 1), D(2020, 4, 1)), (D(2019, 10, 1), D(2019, 11, 1))], (2021, 2019)
    else:
        wins, ys = [(D(2020, 1, 1), D(2021, 1, 1)), (D(2019, 4, 1), D(2020, 4, 1)), (D(2019, 1, 1), D(2021, 1, 1))], (2019, 2020, 2021, 2024)
        if freq == "D":
            wins, ys = [(D(2020, 2, 1), D(2020, 4, 1)), (D(2019, 10, 1), D(2020, 1, 1)), (D(2019, 12, 1), D(2020, 3, 1))], (2021, 2024)
            wins += [(D(2019, 4, 1), D(2020, 4, 1)), (D(2019, 1, 1), D(2021, 1, 1))] if tier == "thorough" else []
        if freq == "YS":
            wins = [wins[0], wins[2], (D(2017, 1, 1), D(2021, 1, 1))]
    for w, (a, b) in enumerate(wins):
        for y in ys:
            for s in ("flat", "nest", "deep") if tier == "thorough" or cal.rank(freq) > 2 else (("flat", "nest", "deep")[(w + y + len(kind + str(tz))) % 3],):
                with rec.case(start=str(a), end=str(b), year=y, s=s):
                    ta, tb = target_window(a, b, y)
                    sx, tx = (Ix(tz, freq, sod, bounds_of(u, v, freq, sod, tz)) for u, v in ((a, b), (ta, tb)))
                    m = structure(kind, sx, s)
                    line = pfm.build(m)
                    fp = pfm.fingerprint(line)
                    sd, td = days(a, b, sod, tz, country), days(ta, tb, sod, tz, country)
                    out = attempt(rec, lambda: pf.map_to_year(line, y, country), cal.rank(freq) > 2 or possible(sd, td))
                    if out is None:
                        continue
                    mp = tools.changeyear.map_index_to_year(line.index, y, country)
                    look = {v: k for k, v in enumerate(sx.starts)}
                    pos = [look[real.ts_sec(t)] for t in mp]
                    pfm.compare(out, mapped(m, tx, pos), f"{kind} {s} {freq} {a} -> {y}")
                    if pfm.fingerprint(line) != fp:
                        raise Mismatch("operand changed")
                    rec.state(kind, s, freq, tz, str(a), y)


def structure(kind, x, s):
    if s == "flat":
        return pfm.priced(pfm.make(kind, x, 1, zero_q=False))
    a, b = pfm.make(kind, x, 2), pfm.make(kind, x, 0)
    if s == "nest":
        return pfm.priced(pfm.nest({"a": a, "b": b}))
    return pfm.priced(pfm.nest({"a": pfm.nest({"k": a, "l": b}), "c": pfm.make(kind, x, 3)}))


def mapped(m, tx, pos):
    def fn(f):
        sdur, tdur = f.ix.dur, tx.dur
        d = {c: [v[p] * (1 if c == "p" else tdur[k] / sdur[p]) for k, p in enumerate(pos)] for c, v in f.data.items()}
        return MP(f.kind, tx, d, pz=[f.pz[p] for p in pos] if f.pz else None)

    return m.map(fn)
