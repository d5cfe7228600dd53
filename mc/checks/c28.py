"""C28: frequencies are totally ordered, and inferred correctly."""

import datetime as dt
import itertools

import numpy as np
import pandas as pd

from .. import cal, pfm, real
from ..engine import Mismatch

PROP = "C28"
TECHNIQUE = "exhaustive enumeration of all ordered collections of frequencies up to length 3 (thorough: 4), and of all windows x frequency x timezone x start-of-day x left-out timestamps for inference, on the real functions against the calendar model"
EXPLANATION = (
    "All 30 frequencies (quarters and years with every start month) are compared in all ordered pairs and triples with the"
    " rank order; comparison must be antisymmetric and transitive, and shortest and longest must be minimum and maximum for every"
    " order of the arguments.  For every window of the calendar (incl. all around clock changes), the frequency is removed and"
    " must be found again, wanted frequencies must be set if, and only if, they fit the timestamps, and the length of every"
    " period must give its frequency."
)
ASSUMPTIONS = ["at least three timestamps are needed to infer a frequency", "if several frequencies are equally long, either may be returned as shortest or longest"]
MON = "JAN FEB MAR APR MAY JUN JUL AUG SEP OCT NOV DEC".split()
FREQS = ["15min", "h", "D", "MS", "QS", "YS", *[f"QS-{m}" for m in MON], *[f"YS-{m}" for m in MON]]
BAD = ["30min", "5min", "min", "45min", "2h", "24h", "3h", "2D", "7D", "W", "W-MON", "B", "ME", "2MS", "3MS", "BMS", "SMS", "QE", "2QS", "BQS", "YE", "2YS", "BYS", "s", "ms", "-1D", "-1h", "-1MS"]
TZS = ["Europe/Berlin", None, "America/New_York", "Asia/Kolkata", "UTC"]
SOME = ["15min", "h", "D", "MS", "QS", "QS-FEB", "QS-APR", "YS", "YS-FEB", "YS-APR", "QS-DEC", "YS-OCT"]


def groups(tier):
    out = [{"part": "order", "a": a} for a in FREQS]
    out += [{"part": "valid"}]
    out += [{"part": "infer", "freq": f, "tz": tz, "sod": sod} for f in SOME[:11] for tz in TZS for sod in ("00:00", "06:00") if tier == "thorough" or sod == "00:00" or tz in TZS[:3]]
    out += [{"part": "delta", "freq": f, "tz": tz} for f in SOME for tz in TZS]
    return out


def anchor(f):
    """-> rank, start month (mod 3 for quarter), or None"""
    b, a = cal.parse_freq(f)
    return cal.rank(f), (a % 3 if b == "QS" else a if b == "YS" else None)


def direction(a, b):
    """1, 0, -1, or None if not possible"""
    (ra, aa), (rb, ab) = anchor(a), anchor(b)
    if aa is None or ab is None:
        return (ra > rb) - (ra < rb)
    if ra == rb:
        return 0 if aa == ab else None
    return ((ra > rb) - (ra < rb)) if aa % 3 == ab % 3 else None


def run_order(f, rec, a, tier):
    rank = cal.rank

    def holds(fn, ok, what):
        try:
            fn()
        except AssertionError:
            if ok:
                raise Mismatch(f"{what} fails")
        else:
            if not ok:
                raise Mismatch(f"{what} does not fail")

    forms = lambda s: (s, pd.tseries.frequencies.to_offset(s))
    for b in FREQS:
        with rec.case(a=a, b=b):
            ra, rb = rank(a), rank(b)
            for x, y in itertools.product(forms(a), forms(b)):
                e = direction(a, b)
                if e is None:
                    rec.raises(lambda: f.up_or_down(x, y), f"compare {x} and {y}", ValueError)
                    rec.raises(lambda: f.up_or_down(y, x), f"compare {y} and {x}", ValueError)
                else:
                    got, rev = f.up_or_down(x, y), f.up_or_down(y, x)
                    if got != e or rev != -e:
                        raise Mismatch(f"{x} vs {y}: {got} and {rev}, expected {e}")
                rec.step(2)
                holds(lambda: f.assert_freq_equally_long(x, y), ra == rb, f"{x} equally long as {y}")
                for strict in (False, True):
                    holds(lambda: f.assert_freq_sufficiently_long(x, y, strict), ra > rb or (ra == rb and not strict), f"{x} longer ({strict}) than {y}")
                    holds(lambda: f.assert_freq_sufficiently_short(x, y, strict=strict), ra < rb or (ra == rb and not strict), f"{x} shorter ({strict}) than {y}")
            rec.state("pair", a, b)
    for k in range(1, 4):
        pool = FREQS if k < 3 or tier == "thorough" else SOME
        for rest in itertools.product(pool, repeat=k - 1):
            check_tuple(f, rec, (a, *rest))
    if tier == "thorough":
        for rest in itertools.product(SOME, repeat=3):
            check_tuple(f, rec, (a, *rest))


def check_tuple(f, rec, t):
    with rec.case(freqs=t):
        lo, hi = f.shortest(*t), f.longest(*t)
        ranks = [cal.rank(x) for x in t]
        if lo not in t or cal.rank(lo) != min(ranks):
            raise Mismatch(f"shortest of {t}: {lo}")
        if hi not in t or cal.rank(hi) != max(ranks):
            raise Mismatch(f"longest of {t}: {hi}")
        rec.step(2)
        rec.state("tuple", t)


def run_valid(f, rec):
    for x in FREQS:
        with rec.case(valid=x):
            f.assert_freq_valid(x)
            f.assert_freq_valid(pd.tseries.frequencies.to_offset(x))
            f.to_offset(x)
            rec.state(x)
    for x in BAD:
        with rec.case(invalid=x):
            rec.raises(lambda: f.assert_freq_valid(x), f"frequency {x}", ValueError)
            rec.raises(lambda: f.to_offset(x), f"offset of {x}", ValueError)
            rec.state(x)
    for kw in ({"minutes": 14}, {"minutes": 16}, {"minutes": 30}, {"minutes": 59}, {"minutes": 61}, {"hours": 2}, {"hours": 12}, {"hours": 22.9}, {"hours": 25.1}, {"days": 2}, {"days": 7}, {"days": 26}, {"days": 33}, {"days": 60}, {"days": 88}, {"days": 94}, {"days": 182}, {"days": 363}, {"days": 368}, {"days": 730}, {"days": 0}, {"days": -1}, {"hours": -1}):
        with rec.case(delta=kw):
            rec.raises(lambda: f.from_tdelta(pd.Timedelta(**kw)), f"timedelta {kw}", ValueError)


def starts(freq, tier):
    """first days"""
    b, _ = cal.parse_freq(freq)
    if b in ("15min", "h"):
        ds = ["2020-01-01", "2020-03-08", "2020-03-28", "2020-03-29", "2020-10-24", "2020-10-25", "2020-11-01", "2020-02-29"]
        ds = [dt.date.fromisoformat(d) for d in ds]
    elif b == "D":
        ds = [dt.date(2020, m, 1) + dt.timedelta(days=k) for m in (2, 3, 10) for k in range(0, 31, 1 if tier == "thorough" else 2)] + [dt.date(2019, 12, 30), dt.date(2020, 11, 1)]
    else:
        d = cal.floor_date(dt.date(2018, 12, 31), freq)
        ds = [cal.add_date(d, freq, k) for k in range({"MS": 26, "QS": 9, "YS": 4}[b])]
    return ds


LENGTHS = {"15min": (3, 4, 13, 96, 100), "h": (3, 4, 5, 23, 24, 25, 72), "D": (3, 4, 5, 29, 366), "MS": (3, 4, 5, 12, 13, 37), "QS": (3, 4, 5, 9), "YS": (3, 4, 6)}


def fits(stamps, freq, tz, sod):
    """timestamps are consecutive periods with this frequency"""
    if not cal.is_boundary(stamps[0], freq, sod if cal.rank(freq) > 1 else "00:00", tz):
        return False
    return cal.periods(stamps[0], freq, tz, len(stamps))[:-1] == stamps


def frames(i):
    n = len(i)
    yield pd.Series(np.arange(n) * 1.5, i, name="x")
    yield pd.DataFrame({"a": np.arange(n) * 2.0, "b": [f"t{k}" for k in range(n)]}, i)


def same_data(a, b):
    if type(a) is not type(b) or not np.array_equal(a.values, b.values) or a.index.asi8.tolist() != b.index.asi8.tolist():
        raise Mismatch("values changed")
    if a.index.name != b.index.name or real.tzname(a.index.tz) != real.tzname(b.index.tz):
        raise Mismatch("index name or timezone changed")
    if isinstance(a, pd.Series) and a.name != b.name or isinstance(a, pd.DataFrame) and list(a.columns) != list(b.columns):
        raise Mismatch("name or columns changed")


def run_infer(f, rec, freq, tz, sod, tier):
    base, _ = cal.parse_freq(freq)
    wanted = ["15min", "h", "D", "MS", "QS", "QS-FEB", "QS-MAR", "QS-APR", "QS-OCT", "YS", "YS-FEB", "YS-APR", "YS-OCT", "YS-DEC"]
    for d in starts(freq, tier):
        for n in LENGTHS[base]:
            b = cal.periods(cal.combine(d, sod, tz), freq, tz, n)
            s = b[:-1]
            stamps = [real.stamp(v, tz) for v in s]
            i = pd.DatetimeIndex(stamps, name="when")
            if i.freq is not None:
                raise Mismatch("harness: index has frequency")
            with rec.case(start=str(d), n=n):
                g = f.guess_to_index(i)
                rec.step()
                if real.secs(g) != s or g.name != "when" or real.tzname(g.tz) != tz:
                    raise Mismatch("guessing changed index")
                if i.freq is not None:
                    raise Mismatch("guessing changed original index")
                if g.freq is None or not pfm.same_freq(g.freqstr, freq):
                    raise Mismatch(f"inferred {g.freqstr}, expected {freq}")
                h = f.guess_to_index(g)
                if not h.equals(g) or h.freq != g.freq:
                    raise Mismatch("guessing again changes frequency")
                for fr in frames(i):
                    got = f.guess_to_frame(fr)
                    same_data(fr, got)
                    if got.index.freq != g.freq or fr.index.freq is not None:
                        raise Mismatch(f"frame: {got.index.freq}, index {g.freq}")
                rec.state("infer", tz, freq, sod, str(d), n)
            if n > 5:
                continue
            # all ways to leave out timestamps: frequency must fit, if set
            for keep in itertools.product((0, 1), repeat=n):
                k = sum(keep)
                if k in (0, n):
                    continue
                sub = [v for v, yes in zip(s, keep) if yes]
                j = pd.DatetimeIndex([t for t, yes in zip(stamps, keep) if yes])
                with rec.case(start=str(d), keep=keep):
                    g = f.guess_to_index(j)
                    rec.step()
                    if real.secs(g) != sub:
                        raise Mismatch("guessing changed index")
                    if g.freq is not None:
                        ok = k >= 2 and real.secs(pd.date_range(g[0], periods=k, freq=g.freq)) == sub
                        if not ok or pfm.same_freq(g.freqstr, freq) and not fits(sub, freq, tz, sod):
                            raise Mismatch(f"inferred {g.freqstr} does not fit {list(g)}")
                    rec.state("drop", tz, freq, sod, str(d), keep)
            # setting
            for k in (1, 2, n):
                for w in wanted:
                    with rec.case(start=str(d), n=k, set=w):
                        sub = s[:k]
                        for fr in frames(pd.DatetimeIndex(stamps[:k], name="when")):
                            if fits(sub, w, tz, sod):
                                got = f.set_to_frame(fr, w)
                                same_data(fr, got)
                                if not pfm.same_freq(got.index.freqstr, w):
                                    raise Mismatch(f"frequency {got.index.freqstr} instead of {w}")
                            else:
                                rec.raises(lambda: f.set_to_frame(fr, w), f"frequency {w} set", ValueError)
                            if fr.index.freq is not None:
                                raise Mismatch("original frame changed")
                            rec.step()
    for bad in (pd.Series([1, 2]), pd.DataFrame({"a": [1.0]}, ["2020-01-01"])):
        with rec.case(noindex=str(type(bad))):
            rec.raises(lambda: f.guess_to_frame(bad), "no datetimeindex", ValueError)
            rec.raises(lambda: f.set_to_frame(bad, "D"), "no datetimeindex", ValueError)


def run_delta(f, rec, freq, tz):
    base, _ = cal.parse_freq(freq)
    for sod in ("00:00", "06:00", "05:00"):
        if base in ("15min", "h"):
            bs = []
            for d in ("2020-03-28", "2020-10-25", "2020-03-08", "2020-11-01"):
                s = cal.combine(dt.date.fromisoformat(d), sod, tz)
                bs.append(cal.periods(s, freq, tz, 60 if base == "h" else 240))
        else:
            d = cal.floor_date(dt.date(2018, 12, 31), freq)
            n = {"D": 1100, "MS": 40, "QS": 20, "YS": 12}[base]
            bs = [cal.periods(cal.combine(d, sod, tz), freq, tz, n)]
        for b in bs:
            for s, e in zip(b, b[1:]):
                with rec.case(sod=sod, start=s):
                    x, y = real.stamp(s, tz), real.stamp(e, tz)
                    got = f.from_tdelta(y - x)
                    if got != base:
                        raise Mismatch(f"{y} - {x}: {got}")
                    if x + f.to_offset(freq) != y:
                        raise Mismatch(f"{x} + offset: {x + f.to_offset(freq)}, expected {y}")
                    rec.step(2)
                    rec.state("delta", tz, freq, s)


def run(group, rec, tier):
    from portfolyo import tools

    f, p = tools.freq, group["part"]
    if p == "order":
        run_order(f, rec, group["a"], tier)
    elif p == "valid":
        run_valid(f, rec)
    elif p == "infer":
        run_infer(f, rec, group["freq"], group["tz"], group["sod"], tier)
    else:
        run_delta(f, rec, group["freq"], group["tz"])
