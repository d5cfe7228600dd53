"""C09: frequency change = exact aggregation/distribution over complete delivery periods."""

import datetime as dt

import pandas as pd

from .. import cal, pfm, real
from ..engine import Mismatch

PROP = "C09"
ASSUMPTIONS = [
    "timezones {none, Europe/Berlin, America/New_York, Asia/Kolkata} and starts-of-day {00:00, 06:00} stand for all;"
    " values are small exact numbers",
    "calendar reference = stdlib datetime + zoneinfo of the sandbox",
]
EXPLANATION = (
    "Every (timezone, start-of-day, source freq, target freq, start, end) window whose ends lie around period"
    " boundaries and DST changes is resampled by the real code (series sum/avg, frames, flat and nested portfolio"
    " lines of the 4 kinds) and compared value by value with a first-principles calendar model."
)
TZS = [None, "Europe/Berlin", "America/New_York", "Asia/Kolkata"]
SODS = ["00:00", "06:00"]
FREQS = ["15min", "h", "D", "MS", "QS", "YS"]


def d(s):
    return dt.date.fromisoformat(s)


def around(*days, before=1, after=1):
    out = []
    for x in days:
        for k in range(-before, after + 1):
            out.append(d(x) + dt.timedelta(days=k))
    return sorted(set(out))


def windows(fs, ft, tier):
    """(start date, end date) for day-or-shorter sources; (start date, n) for longer sources."""
    deep = tier == "thorough"
    if "-" in fs:
        bs, anchor = cal.parse_freq(fs)
        if cal.rank(ft) < 3 and bs == "YS":
            return [(dt.date(2019, anchor, 1), 1)]
        return [(cal.add_date(dt.date(2019, anchor, 1), fs, k), n) for k in range(4 if bs == "QS" else 1) for n in ((1, 2, 3, 4, 5, 7, 8, 9) if bs == "QS" and cal.rank(ft) > 3 else (1, 2, 3))]
    if "-" in ft:
        bt, anchor = cal.parse_freq(ft)
        a0 = dt.date(2019 if bt == "YS" else 2020, anchor, 1)
        a1, a2 = cal.add_date(a0, ft, 1), cal.add_date(a0, ft, 2)
        if fs == "MS":
            return [(cal.add_date(a0, "MS", k), n) for k in range(-2, 3) for n in ([1, 3, 4, 5, 6, 7] if bt == "QS" else [11, 12, 13, 14, 24, 26])]
        return [(a, b) for a in around(str(a0)) for b in around(str(a1), str(a2))]
    if fs in ("15min", "h"):
        if cal.rank(ft) <= 2:
            days = around("2020-03-29", "2020-10-25", "2020-11-01", "2021-03-14", before=1, after=2)
            return [(a, b) for a in days for b in days if 0 < (b - a).days <= (5 if deep else 3)]
        if ft == "MS":
            if fs == "15min":
                aa, bb = [d("2020-02-29"), d("2020-03-01"), d("2020-10-31"), d("2020-11-01")], around("2020-04-01", "2020-12-01")
            else:
                aa = around("2020-03-01", "2020-10-01", "2020-11-01")
                bb = around("2020-03-01", "2020-04-01", "2020-11-01", "2020-12-01", "2021-01-01")
            return [(a, b) for a in aa for b in bb if 0 < (b - a).days <= (95 if deep else 62) and (fs == "h" or (b - a).days < 40)]
        if ft == "QS":
            if fs == "15min":
                return [(d("2020-10-01"), d("2021-01-01"))] if deep else []
            return [(a, b) for a in around("2020-01-01", "2020-10-01", before=1, after=1) for b in around("2020-04-01", "2021-01-01", before=1, after=0) if 0 < (b - a).days < 100]
        if fs == "15min":
            return []
        return [(d(a), d(b)) for a, b in ([("2019-12-31", "2021-01-01"), ("2020-01-01", "2021-01-01"), ("2020-01-02", "2021-01-03"), ("2021-01-01", "2022-01-02")] if deep else [("2019-12-31", "2021-01-02")])]
    if fs == "D":
        if cal.rank(ft) < 2:
            days = around("2020-03-29", "2020-10-25", "2020-11-01", before=1, after=1)
            return [(a, b) for a in days for b in days if 0 < (b - a).days <= 3]
        if ft == "MS":
            w = 2 if deep else 1
            aa = around("2020-02-01", "2020-03-01", "2020-10-01", "2020-11-01", before=w, after=w)
            bb = around("2020-02-01", "2020-03-01", "2020-04-01", "2020-11-01", "2020-12-01", "2021-01-01", before=w, after=w)
            return [(a, b) for a in aa for b in bb if 0 < (b - a).days <= 95]
        if ft == "QS":
            aa = around("2020-01-01", "2020-04-01", "2020-10-01", before=1, after=1)
            bb = around("2020-04-01", "2020-07-01", "2021-01-01", "2021-04-01", before=1, after=1)
            return [(a, b) for a in aa for b in bb if 0 < (b - a).days <= 370]
        aa = around("2020-01-01", "2019-01-01", before=1, after=1)
        bb = around("2021-01-01", "2022-01-01", before=1, after=1)
        return [(a, b) for a in aa for b in bb]
    if fs == "MS":
        if cal.rank(ft) < 3:
            months = [("2020-02-01", 1), ("2020-03-01", 2), ("2020-10-01", 1), ("2020-10-01", 3), ("2019-12-01", 4)]
            return [(d(a), n) for a, n in months if (ft != "15min" or n == 1)]
        out = []
        for m in range(1, 13):
            for n in (range(1, 27) if deep else list(range(1, 8)) + [11, 12, 13, 14, 15, 23, 24, 25]):
                out.append((dt.date(2019 + (m > 6), m, 1), n))
        return out
    if fs == "QS":
        if cal.rank(ft) < 3:
            return [(d("2020-01-01"), 1), (d("2020-10-01"), 2)][: 2 if ft != "15min" else 1] if (deep or ft != "15min") else []
        return [(dt.date(2019, m, 1), n) for m in (1, 4, 7, 10) for n in (1, 2, 3, 4, 5, 6, 7, 8, 9)]
    # YS
    if ft == "15min" or (ft == "h" and not deep):
        return []
    return [(dt.date(y, 1, 1), n) for y in (2019, 2020, 2023) for n in ((1, 2, 3) if ft != "h" else (1,))]


def groups(tier):
    out = []
    for fs in FREQS:
        for ft in FREQS:
            for tz in TZS:
                for sod in SODS:
                    out.append({"fs": fs, "ft": ft, "tz": tz, "sod": sod})
    for fs, ft in (("D", "QS-FEB"), ("MS", "QS-FEB"), ("MS", "YS-APR"), ("QS-FEB", "MS"), ("QS-FEB", "YS-FEB"), ("D", "YS-APR"), ("YS-APR", "MS"), ("QS-FEB", "D"), ("QS-FEB", "YS-MAY")):
        for tz in TZS:
            for sod in SODS:
                out.append({"fs": fs, "ft": ft, "tz": tz, "sod": sod})
    # heaviest first (better load balance)
    out.sort(key=lambda g: (min(cal.rank(g["fs"]), cal.rank(g["ft"])), -max(cal.rank(g["fs"]), cal.rank(g["ft"]))))
    return out


def mk_ix(tz, fs, sod, a, b):
    s = cal.combine(a, sod, tz)
    if isinstance(b, int):
        return pfm.Ix(tz, fs, sod, cal.periods(s, fs, tz, b))
    e = cal.combine(b, sod, tz)
    if fs in cal.FIXED:
        return pfm.Ix(tz, fs, sod, list(range(s, e + 1, cal.FIXED[fs])))
    return pfm.Ix(tz, fs, sod, cal.periods(s, fs, tz, (b - a).days))


def run(group, rec, tier):
    import portfolyo as pf

    fs, ft, tz, sod = group["fs"], group["ft"], group["tz"], group["sod"]
    ws = windows(fs, ft, tier)
    if tier != "thorough" and len(ws) > 60 and (tz in ("Asia/Kolkata", None)):
        ws = ws[:: 2 if sod == "00:00" else 3]  # no DST change: fewer windows
    for k, (a, b) in enumerate(ws):
        x = mk_ix(tz, fs, sod, a, b)
        i = x.real()
        if real.secs(i) != x.starts:
            raise RuntimeError(f"harness index wrong {x.key()}")
        vals = [float((j * 7 + k) % 11 + 1) for j in range(x.n)]
        vals2 = [float((j * 3 + k) % 5 - 2) for j in range(x.n)]
        down, same = cal.rank(ft) > cal.rank(fs), ft == fs
        exp = {}
        for how in ("sum", "avg"):
            fn = cal.downsample if down else cal.upsample
            exp[how] = (x.bounds, vals) if same else fn(x.bounds, vals, ft, sod, tz, how)
        nb = exp["sum"][0]
        rec.outcome("empty" if not nb else ("same" if same else "down" if down else "up"))
        # --- series level: dtype variants cycle deterministically over all windows; both functions always.
        variants = ["pint", "float", "int", "frame"] if tier == "thorough" else [["pint", "float", "int", "frame"][k % 4]]
        for how, f in (("sum", pf.asfreq_sum), ("avg", pf.asfreq_avg)):
            for var in variants:
                with rec.case(a=str(a), b=str(b), how=how, var=var):
                    if var == "pint":
                        fr = pd.Series(vals, i, dtype="pint[GW]", name="foo")
                    elif var == "float":
                        fr = pd.Series(vals, i, name="foo")
                    elif var == "int":
                        fr = pd.Series([int(v) for v in vals], i, name="foo")
                    else:
                        fr = pd.DataFrame({"foo": pd.Series(vals, i, dtype="pint[MW]"), "bar": pd.Series(vals2, i)})
                    out = f(fr, ft)
                    rec.step()
                    if type(out) is not type(fr):
                        raise Mismatch(f"type {type(out)}")
                    if not nb:
                        if len(out):
                            raise Mismatch(f"no complete period, but result has {len(out)} rows")
                        continue
                    nix = pfm.Ix(tz, ft, sod, nb)
                    pfm.cmp_index(out.index, nix)
                    if var == "frame":
                        if list(out.columns) != ["foo", "bar"]:
                            raise Mismatch(f"columns {list(out.columns)}")
                        fn = cal.downsample if down else cal.upsample
                        e2 = vals2 if same else fn(x.bounds, vals2, ft, sod, tz, how)[1]
                        if not real.allclose(real.mags(out["bar"]), e2):
                            raise Mismatch(f"bar {real.fmt(real.mags(out['bar']))} != {real.fmt(e2)}")
                        out = out["foo"]
                    if not real.same_unit(out, {"pint": "GW", "frame": "MW"}.get(var)):
                        raise Mismatch(f"dtype {out.dtype}")
                    if out.name != "foo":
                        raise Mismatch(f"name {out.name}")
                    got = real.mags(out)
                    if not real.allclose(got, exp[how][1]):
                        raise Mismatch(f"values {real.fmt(got)} != {real.fmt(exp[how][1])}")
                    rec.state(how, ft, nb[0], nb[-1], tz, [real.r12(v) for v in exp[how][1]][:50])
        # --- portfolio lines
        if cal.rank(fs) <= 1 and (x.bounds[-1] - x.bounds[0]) % 900:
            continue
        combos = [(kind, nested) for nested in (False, True) for kind in pfm.KINDS]
        if tier != "thorough" or len(nb) > 500 or x.n > 500:
            combos = [combos[k % 8]]
        for kind, nested in combos:
            if True:
                with rec.case(a=str(a), b=str(b), kind=kind, nested=nested):
                    m = pfm.make(kind, x, k % 3)
                    if nested:
                        m = pfm.nest({"a": m, "b": pfm.make(kind, x, 4, zero_q=k % 2 == 1)})
                    pfl = pfm.build(m)
                    m2 = m.asfreq(ft) if not same else m
                    if m2 is None:
                        rec.raises(lambda: pfl.asfreq(ft), f"asfreq({ft}) without complete period", ValueError)
                        continue
                    out = pfl.asfreq() if ft == "MS" else pfl.asfreq(ft)  # default: month
                    rec.step()
                    pfm.compare(out, m2, "asfreq")
                    rec.state(m2.key() if m2.ix.n < 50 else [kind, nested, m2.ix.key()])
                    if k == 0:
                        rec.sample({"group": group, "a": str(a), "b": str(b), "kind": kind, "result_n": m2.ix.n})
