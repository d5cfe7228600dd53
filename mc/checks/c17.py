"""C17: decomposition into peak and offpeak values."""

import datetime as dt
import itertools

import pandas as pd

from .. import cal, pfm, real
from ..engine import Mismatch
from .c16 import fixix, longest, oracle

PROP = "C17"
TECHNIQUE = "exhaustive enumeration of windows x frequencies x peak functions x quantities, executed on the real code against a reference model"
EXPLANATION = (
    "Every (timezone, start-of-day, source frequency, delivery period incl. partial periods and DST changes) x target frequency"
    " x peak function x (summable / averagable) x (with / without unit) is decomposed, and the result compared with the model"
    " that sums every single timestamp; the decomposed frame is converted back to a timeseries at every frequency and to frames"
    " of every other frequency, and every combination of known columns is completed. The po-method is checked for every kind"
    " and structure of portfolio line."
)
ALL = [1, 2, 3, 4, 5, 6, 7]
FNS = {
    "german": (dt.time(8), dt.time(20), [1, 2, 3, 4, 5]),
    "weekend": (None, None, [6, 7]),
    "dsthour": (dt.time(2), dt.time(3), ALL),
    "late": (dt.time(22), None, [1, 3, 7]),
    "quarter": (None, dt.time(7, 15), ALL),
}
# timezone, source freq, start, days or number of periods
WIN = [
    ("Europe/Berlin", "h", "2020-03-01", 61),
    ("Europe/Berlin", "h", "2020-09-28", 99),  # partial months
    ("America/New_York", "h", "2020-10-15", 60),
    (None, "h", "2020-01-31", 62),
    ("Asia/Kolkata", "h", "2020-02-01", 29),
    ("Europe/Berlin", "15min", "2020-09-30", 33),
    ("Europe/Berlin", "15min", "2020-03-01", 31),
    ("Europe/Berlin", "D", "2020-01-05", 400),
    ("America/New_York", "D", "2020-12-31", 366),
]
FRAMES = [  # of peak and offpeak values
    ("Europe/Berlin", "MS", "2020-02-01", 5),
    ("Europe/Berlin", "MS", "2020-09-01", 4),
    ("America/New_York", "QS", "2020-01-01", 4),
    (None, "QS-FEB", "2020-02-01", 3),
    ("Europe/Berlin", "YS", "2020-01-01", 1),
    ("Asia/Kolkata", "MS", "2020-12-01", 3),
]
UNIT = "MWh"


def groups(tier):
    out = []
    for k, w in enumerate(WIN):
        for sod in ("00:00", "06:00"):
            for fn in FNS:
                out.append({"t": "down", "w": k, "sod": sod, "fn": fn})
    for k, w in enumerate(FRAMES):
        for sod in ("00:00", "06:00"):
            if tier == "quick" and (k % 2 == 0) != (sod == "06:00"):
                continue
            for fn in FNS:
                out.append({"t": "frame", "w": k, "sod": sod, "fn": fn})
    for k in (0, 1, 3) if tier == "quick" else range(len(WIN)):
        for kind in pfm.KINDS:
            for sod in ("00:00", "06:00"):
                out.append({"t": "po", "w": k, "sod": sod, "kind": kind})
    out.append({"t": "bad"})
    return out


def srcix(w, sod):
    tz, f, start, n = WIN[w]
    if f in cal.FIXED:
        return fixix(tz, f, sod, start, n)
    return pfm.ix(tz, f, sod, start, n)


def values(n, seed=0):
    return [float((k * 7 + seed * 5 + (k // 24) * 3) % 23 + 1) for k in range(n)]


def decompose(x, vals, flags, freq, summable):
    """model -> (bounds, peak values, offpeak values, peak durations, offpeak durations)"""
    nb, _ = cal.downsample(x.bounds, vals, freq, x.sod, x.tz, "sum") if x.freq != freq else (x.bounds, None)
    if not nb:
        return None
    out = []
    for a, b in zip(nb, nb[1:]):
        t = {True: [0.0, 0.0], False: [0.0, 0.0]}
        for s, e, v, fl in zip(x.bounds, x.bounds[1:], vals, flags):
            if a <= s < b:
                h = (e - s) / 3600
                t[fl][0] += v if summable else v * h
                t[fl][1] += h
        out.append(t)
    pk = [t[True] if summable else [pfm.div(t[True][0], t[True][1]), t[True][1]] for t in out]
    op = [t[False] if summable else [pfm.div(t[False][0], t[False][1]), t[False][1]] for t in out]
    return nb, [p[0] for p in pk], [p[0] for p in op], [p[1] for p in pk], [p[1] for p in op]


def cmp_frame(df, x, cols, unit, what):
    pfm.cmp_index(df.index, x, what)
    if list(df.columns) != list(cols):
        raise Mismatch(f"{what}: columns {list(df.columns)}")
    for c, vals in cols.items():
        if not real.same_unit(df[c], unit):
            raise Mismatch(f"{what}: {c} has dtype {df[c].dtype}")
        if not real.allclose(real.mags(df[c]), vals):
            raise Mismatch(f"{what}: {c} {real.fmt(real.mags(df[c]))} != {real.fmt(vals)}")


def cmp_s(s, x, vals, unit, what):
    pfm.cmp_index(s.index, x, what)
    if not real.same_unit(s, unit):
        raise Mismatch(f"{what}: dtype {s.dtype}")
    if not real.allclose(real.mags(s), vals):
        g = real.mags(s)
        k = next(k for k in range(len(vals)) if not real.close(g[k], vals[k]))
        raise Mismatch(f"{what}: {s.index[k]} {g[k]} != {vals[k]}")


def series(vals, i, unit):
    s = pd.Series(vals, i, dtype=float)
    return s.astype(f"pint[{unit}]") if unit else s


def run(group, rec, tier):
    {"down": run_down, "frame": run_frame, "po": run_po, "bad": run_bad}[group["t"]](group, rec, tier)


def targets(f, start):
    yield "MS"
    yield "QS"
    yield "QS-FEB"
    yield "YS"


def run_down(group, rec, tier):
    import portfolyo as pf
    from portfolyo.tools import peakconvert as pc

    left, right, days = FNS[group["fn"]]
    fn = pf.create_peakfn(left, right, days)
    x = srcix(group["w"], group["sod"])
    i = x.real()
    if cal.rank(x.freq) > cal.rank(longest(left, right)):
        with rec.case(refused=True):
            rec.raises(lambda: pc.tseries2poframe(series(values(x.n), i, None), fn, "MS"), "frequency too long for peak function", ValueError)
        return
    flags = oracle(x, left, right, days)
    vals = values(x.n, 1)
    for freq in targets(x.freq, None):
        for summable in (True, False):
            for unit in (None, UNIT):
                with rec.case(freq=freq, summable=summable, unit=unit):
                    d = decompose(x, vals, flags, freq, summable)
                    rec.step()
                    if d is None:
                        try:
                            got = pc.tseries2poframe(series(vals, i, unit), fn, freq, summable)
                        except Exception:
                            rec.outcome("nothing complete")
                            continue
                        if len(got):
                            raise Mismatch(f"{freq}: {len(got)} rows without complete period")
                        continue
                    nb, p, o, _, _ = d
                    y = pfm.Ix(x.tz, freq, x.sod, nb)
                    s = series(vals, i, unit)
                    got = pc.tseries2poframe(s, fn, freq, summable)
                    cmp_frame(got, y, {"peak": p, "offpeak": o}, unit, f"to {freq}")
                    rec.state(group["w"], group["sod"], group["fn"], freq, summable, [real.r12(v) for v in p + o])
                    rec.outcome("sum" if summable else "avg")
                    rec.sample({"group": group, "freq": freq})
    for f in ("D", "h", "15min"):
        with rec.case(bad=f):
            rec.raises(lambda: pc.tseries2poframe(series(vals, i, None), fn, f), f"to {f}", ValueError)


def classdur(x, left, right, days):
    """peak and offpeak hours per period"""
    e, _, fl = fine(x, longest(left, right), left, right, days)
    pk = [sum((q - p) / 3600 for p, q, ok in zip(e.bounds, e.bounds[1:], fl) if ok and a <= p < b) for a, b in zip(x.bounds, x.bounds[1:])]
    return pk, [d - p for d, p in zip(x.dur, pk)]


def run_frame(group, rec, tier):
    import portfolyo as pf
    from portfolyo.tools import peakconvert as pc

    tz, f, start, n = FRAMES[group["w"]]
    left, right, days = FNS[group["fn"]]
    fn = pf.create_peakfn(left, right, days)
    x = pfm.ix(tz, f, group["sod"], start, n)
    i = x.real()
    cache.clear()
    pk, op = classdur(x, left, right, days)
    P, O = values(n, 2), values(n, 5)
    for summable in (True, False):
        if summable:
            B = [a + b for a, b in zip(P, O)]
        else:
            B = [(a * h + b * k) / (h + k) for a, b, h, k in zip(P, O, pk, op)]
        cols = {"base": B, "peak": P, "offpeak": O}
        for unit in (None, UNIT):
            for r in (2, 3):
                for sub in itertools.permutations(cols, r):
                    df = pd.DataFrame({"foo": 1.0, **{c: series(cols[c], i, unit) for c in sub}}, i)
                    if r == 2 or sub in (("base", "peak", "offpeak"), ("offpeak", "base", "peak")):
                        with rec.case(summable=summable, unit=unit, complete=sub):
                            rec.step()
                            got = pc.complete_bpoframe(df, fn, summable)
                            cmp_frame(got, x, cols, unit, f"complete {sub}")
                            rec.state("complete", group, summable, sub)
                            rec.outcome("complete")
                    if r == 3 and sub[0] != "offpeak":
                        continue
                    for freq in ("15min", "h", "D"):
                        if freq == "15min" and (n > 3 or f[0] != "M") and (tier == "quick" or f == "YS"):
                            continue
                        with rec.case(summable=summable, unit=unit, sub=sub, freq=freq):
                            if cal.rank(freq) > cal.rank(longest(left, right)):
                                if tier == "quick" and (r == 3 or unit):
                                    continue
                                rec.raises(lambda: pc.poframe2tseries(df, fn, freq, summable), f"to {freq}", ValueError)
                                continue
                            if tier == "quick" and (r == 2 and (sub[0] > sub[1]) != bool(unit) or r == 3 and sub[1] == "base"):
                                continue
                            rec.step()
                            got = pc.poframe2tseries(df, fn, freq, summable)
                            y, w = expand(x, freq, left, right, days, P, O, pk, op, summable)
                            cmp_s(got, y, w, unit, f"{sub} to {freq}")
                            rec.state("ts", group, summable, freq, sub)
                            rec.outcome("to timeseries")
            if longest(left, right) == "15min":
                continue
            if summable is False and unit and tier == "quick":
                continue
            df = pd.DataFrame({"peak": series(P, i, unit), "offpeak": series(O, i, unit)})
            for f2 in ("MS", "QS", "YS", "QS-FEB"):
                b1, a1 = cal.parse_freq(f)
                b2, a2 = cal.parse_freq(f2)
                if f != f2 and b1 != "MS" and b2 != "MS" and (b1 == b2 or (a1 - a2) % 3):
                    continue
                with rec.case(summable=summable, unit=unit, to=f2):
                    y, w = expand(x, "h", left, right, days, P, O, pk, op, summable)
                    d = decompose(y, w, fine(x, "h", left, right, days)[2], f2, summable)
                    if d is None:
                        continue
                    rec.step()
                    got = pc.poframe2poframe(df, fn, f2, summable)
                    cmp_frame(got, pfm.Ix(tz, f2, x.sod, d[0]), {"peak": d[1], "offpeak": d[2]}, unit, f"{f} to {f2}")
                    rec.state("po2po", group, summable, f2)
                    rec.outcome("to frame")
            for bad in ("D", "h"):
                with rec.case(bad=bad):
                    rec.raises(lambda: pc.poframe2poframe(df, fn, bad, summable), f"to {bad}", ValueError)


cache = {}


def fine(x, freq, left, right, days):
    """index at shorter frequency, which original period each timestamp belongs to, peak or not"""
    if freq not in cache:
        nb, idx = cal.upsample(x.bounds, [float(k) for k in range(x.n)], freq, x.sod, x.tz, "avg")
        y = pfm.Ix(x.tz, freq, x.sod, nb)
        cache[freq] = y, [int(k) for k in idx], oracle(y, left, right, days)
    return cache[freq]


def expand(x, freq, left, right, days, P, O, pk, op, summable):
    y, idx, fl = fine(x, freq, left, right, days)
    out = []
    for k, isp, h in zip(idx, fl, y.dur):
        v, d = (P[k], pk[k]) if isp else (O[k], op[k])
        out.append(v * h / d if summable else v)
    return y, out


def run_po(group, rec, tier):
    import portfolyo as pf

    x = srcix(group["w"], group["sod"])
    kind = group["kind"]
    for fname in ("german", "weekend", "quarter"):
        left, right, days = FNS[fname]
        if cal.rank(x.freq) > cal.rank(longest(left, right)):
            continue
        fn = pf.create_peakfn(left, right, days)
        flags = oracle(x, left, right, days)
        mk = lambda seed: pfm.MP(kind, x, {c: values(x.n, seed + j) for j, c in enumerate(pfm.BASE[kind])})
        for s, m in (("flat", mk(1)), ("nest", pfm.nest({"a": mk(2), "b": mk(0)}))):
            r = pfm.build(m)
            for freq in ("MS", "QS", "YS"):
                with rec.case(fn=fname, s=s, freq=freq):
                    d = decompose(x, x.dur, flags, freq, True)
                    if d is None:
                        continue
                    rec.step()
                    got = r.po(fn, freq)
                    want = {"duration": d}
                    if kind in ("vol", "all"):
                        want["q"] = decompose(x, m.data["q"], flags, freq, True)
                    if kind in ("rev", "all"):
                        want["r"] = decompose(x, m.data["r"], flags, freq, True)
                    if kind == "pri":
                        want["p"] = decompose(x, m.data["p"], flags, freq, False)
                    want = {c: list(zip(v[1], v[2])) for c, v in want.items()}
                    if "q" in want:
                        want["w"] = [[pfm.div(a, b) for a, b in zip(*t)] for t in zip(want["q"], want["duration"])]
                    if kind == "all":
                        want["p"] = [[pfm.div(a, b) for a, b in zip(*t)] for t in zip(want["r"], want["q"])]
                    if set(got.columns) != set(want):
                        raise Mismatch(f"columns {list(got.columns)}")
                    ts = pfm.Ix(x.tz, freq, x.sod, d[0]).real()
                    if len(got) != 2 * len(ts):
                        raise Mismatch(f"{len(got)} rows for {len(ts)} periods")
                    for c, vals in want.items():
                        u = got[c]
                        u = u.pint.to({"duration": "h", "q": "MWh", "w": "MW", "p": "Eur/MWh", "r": "Eur"}[c])
                        for k, t in enumerate(ts):
                            for cl, v in zip(("peak", "offpeak"), vals[k]):
                                g = float(u.loc[(t, cl)].m)
                                if not real.close(g, v):
                                    raise Mismatch(f"{c} {t} {cl}: {g} != {v}")
                    rec.state("po", group, fname, s, freq)
                    rec.outcome("po")
            for bad in ("D", "h"):
                with rec.case(fn=fname, s=s, bad=bad):
                    rec.raises(lambda: r.po(fn, bad), f"po to {bad}", ValueError)


def run_bad(group, rec, tier):
    import portfolyo as pf
    from portfolyo.tools import peakconvert as pc

    i = pfm.ix("Europe/Berlin", "MS", "00:00", "2020-01-01", 3).real()
    for cols in ([], ["base"], ["peak"], ["offpeak"], ["foo", "peak"], ["foo", "bar"]):
        df = pd.DataFrame({c: [1.0, 2, 3] for c in cols}, i)
        for summable in (True, False):
            with rec.case(cols=cols, summable=summable):
                rec.raises(lambda: pc.complete_bpoframe(df, pf.germanpower_peakfn, summable), f"only {cols}", ValueError)
                rec.raises(lambda: pc.poframe2tseries(df, pf.germanpower_peakfn, "h", summable), f"only {cols}", ValueError)
