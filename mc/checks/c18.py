"""C18: hedges preserve volume or value in every hedge product."""

import datetime as dt

import pandas as pd

from .. import cal, pfm, real
from ..engine import Mismatch
from .c16 import fixix, longest, oracle

PROP = "C18"
TECHNIQUE = "exhaustive enumeration of windows x products x hedge types x value patterns, executed on the real code against a reference model"
EXPLANATION = (
    "For every (timezone, start-of-day, frequency, delivery periods of volume and of prices incl. partial products and DST"
    " changes) x product frequency x (volume / value hedge) x (base / peak and offpeak with several peak functions) x units x"
    " value pattern, the hedge is compared at every timestamp with the model that sums every single timestamp of the product;"
    " preserved volume / value and idempotence are checked on the result itself. Portfolio lines of every kind and structure"
    " are hedged likewise, and every invalid specification must be rejected."
)
ALL = [1, 2, 3, 4, 5, 6, 7]
FNS = {
    None: None,
    "german": (dt.time(8), dt.time(20), [1, 2, 3, 4, 5]),
    "dsthour": (dt.time(2), dt.time(3), ALL),
    "quarter": (None, dt.time(7, 15), ALL),
    "weekend": (None, None, [6, 7]),
}
WIN = [  # timezone, freq, start, number of days
    ("Europe/Berlin", "h", "2020-03-01", 61),
    ("Europe/Berlin", "h", "2020-09-20", 62),
    (None, "h", "2020-01-31", 62),
    ("America/New_York", "h", "2020-10-15", 50),
    ("Europe/Berlin", "15min", "2020-10-01", 33),
    ("Europe/Berlin", "D", "2020-02-20", 420),
    ("Asia/Kolkata", "D", "2020-12-31", 93),
]
RELS = {"same": (0, 0), "late": (5, 0), "early": (0, -3), "wide": (-4, 3), "inside": (9, -9), "disjoint": (1000, 1000)}
FREQS = ("D", "MS", "QS", "YS")


def groups(tier):
    out = []
    for k, w in enumerate(WIN):
        for sod in ("00:00", "06:00"):
            for fn in FNS:
                if fn and w[1] == "D" or fn == "quarter" and w[1] != "15min":
                    continue
                out.append({"t": "tool", "w": k, "sod": sod, "fn": fn})
            for kind in ("vol", "all"):
                if tier == "thorough" or (sod == "06:00") == (k % 2 == 0):
                    out.append({"t": "pfl", "w": k, "sod": sod, "kind": kind})
    out.append({"t": "bad"})
    return out


def window(k, sod, rel):
    tz, f, start, n = WIN[k]
    a, b = RELS[rel]
    d0 = (dt.date.fromisoformat(start) + dt.timedelta(days=a)).isoformat()
    n = n - a + b if rel != "disjoint" else n
    return fixix(tz, f, sod, d0, n) if f in cal.FIXED else pfm.ix(tz, f, sod, d0, n)


PATTERNS = ("plain", "signs", "const")


def values(x, pat, what):
    """values are a function of the timestamp, so that several windows are consistent"""
    s0, out = cal.combine(dt.date(2020, 1, 1), "00:00", None), []
    for s in x.starts:
        k = (s - s0) // 900
        if what == "w":
            v = float((k * 7 + k // 96 * 5) % 13 + 1)
            v = v - 6.5 if pat == "signs" else 8.0 if pat == "const" else v
        else:
            v = float((k * 11 + k // 96 * 3) % 17 + 20)
            v = v - 24 if pat == "signs" else v
        out.append(v)
    return out


def expected(x, w, y, p, how, freq, fn):
    """-> (index, hedge power, hedge price), or None"""
    com = sorted(set(x.starts) & set(y.starts))
    if not com:
        return None
    lw, lp = dict(zip(x.starts, w)), dict(zip(y.starts, p))
    end = dict(zip(x.starts, x.bounds[1:]))
    z = pfm.Ix(x.tz, x.freq, x.sod, com + [end[com[-1]]])
    nb = z.bounds if freq == z.freq else cal.downsample(z.bounds, [0.0] * z.n, freq, x.sod, x.tz, "sum")[0]
    if not nb:
        return None
    keep = [s for s in z.starts if nb[0] <= s < nb[-1]]
    z = pfm.Ix(x.tz, x.freq, x.sod, keep + [end[keep[-1]]])
    flags = [None] * z.n if fn is None else oracle(z, *fn)
    import bisect

    acc, keys = {}, []
    for s, h, fl in zip(z.starts, z.dur, flags):
        key = (bisect.bisect_right(nb, s), fl)
        keys.append(key)
        t = acc.setdefault(key, [0.0] * 4)
        for j, v in enumerate((h, lw[s] * h, lp[s] * h, lw[s] * lp[s] * h)):
            t[j] += v
    res = {k: ((t[1] / t[0]) if how == "vol" else pfm.div(t[3], t[2]), t[2] / t[0]) for k, t in acc.items()}
    sums = {k: t for k, t in acc.items()}
    return z, [res[k][0] for k in keys], [res[k][1] for k in keys], keys, sums, [lp[s] for s in z.starts]


def ser(x, vals, unit):
    s = pd.Series(vals, x.real(), dtype=float)
    return s.astype(f"pint[{unit}]") if unit else s


def cmp(s, x, vals, unit, what):
    pfm.cmp_index(s.index, x, what)
    if not real.same_unit(s, unit):
        raise Mismatch(f"{what}: dtype {s.dtype}")
    g = real.mags(s)
    for k, (a, b) in enumerate(zip(g, vals)):
        if not real.close(a, b, rel=1e-7):
            raise Mismatch(f"{what}: {s.index[k]} {a} != {b}")


def run(group, rec, tier):
    {"tool": run_tool, "pfl": run_pfl, "bad": run_bad}[group["t"]](group, rec, tier)


def preserved(rec, e, w, how, what):
    """the hedge itself has, in every product, the volume (value) of the original"""
    z, _, _, keys, sums, mp = e
    tot = {}
    for k, v, p, h in zip(keys, w, mp, z.dur):
        tot[k] = tot.get(k, 0.0) + (v * h if how == "vol" else v * p * h)
    for k, v in tot.items():
        if not real.close(v, sums[k][1 if how == "vol" else 3], rel=1e-7):
            raise Mismatch(f"{what}: product {k} has {v} instead of {sums[k]}")


def run_tool(group, rec, tier):
    import portfolyo as pf
    from portfolyo import tools

    k, sod = group["w"], group["sod"]
    spec = FNS[group["fn"]]
    fn = spec and pf.create_peakfn(*spec)
    x = window(k, sod, "same")
    units = [(None, None), ("MW", "Eur/MWh"), ("MW", None), (None, "ctEur/kWh")]
    j = 0
    for freq in FREQS:
        if fn and freq == "D":
            continue
        for rel in RELS:
            y = window(k, sod, rel)
            for how in ("vol", "val"):
                for pat in PATTERNS:
                    j += 1
                    if tier == "quick" and (j % 3 and rel != "same" or freq == "D" and x.freq == "15min" and j % 2):
                        continue
                    if tier == "quick" and x.freq == "15min" and rel in ("early", "wide"):
                        continue
                    wu, pu = units[j % 4]
                    with rec.case(freq=freq, rel=rel, how=how, pat=pat):
                        w, p = values(x, pat, "w"), values(y, pat, "p")
                        e = expected(x, w, y, p, how, freq, spec)
                        rec.step()
                        sw, sp = ser(x, w, wu), ser(y, p, pu)
                        if e is None:
                            try:
                                got = tools.hedge.hedge(sw, sp, how, fn, freq)
                            except Exception:
                                rec.outcome("nothing in common")
                                continue
                            if len(got[0]) or len(got[1]):
                                raise Mismatch("hedge without complete product")
                            for g, s in zip(got, (sw, sp)):
                                if getattr(g.dtype, "units", None) != getattr(s.dtype, "units", None):
                                    raise Mismatch(f"unit of hedge without complete product: {g.dtype}")
                            rec.outcome("empty")
                            continue
                        if how == "val" and any(abs(t[2]) < 1e-6 for t in e[4].values()):
                            rec.outcome("value zero: unspecified")
                            continue
                        got = tools.hedge.hedge(sw, sp, how, fn, freq)
                        cmp(got[0], e[0], e[1], wu, f"w {how} {freq}")
                        cmp(got[1], e[0], e[2], pu, f"p {how} {freq}")
                        preserved(rec, e, real.mags(got[0]), how, f"{how} {freq}")
                        if rel == "same" and how == "vol":
                            rec.step()
                            again = tools.hedge.hedge(*got, how, fn, freq)
                            cmp(again[0], e[0], e[1], wu, "hedge of hedge w")
                            cmp(again[1], e[0], e[2], pu, "hedge of hedge p")
                        if real.mags(sw) != [float(v) for v in w]:
                            raise Mismatch("argument changed")
                        rec.state(group, freq, rel, how, pat, sorted(set(real.r12(v) for v in e[1]))[:10])
                        rec.outcome(f"{how} hedge")
                        rec.sample({"group": group, "freq": freq, "rel": rel, "how": how})


def run_pfl(group, rec, tier):
    import portfolyo as pf

    k, sod, kind = group["w"], group["sod"], group["kind"]
    x = window(k, sod, "same")
    fnames = [None] if x.freq == "D" else [None, "german"]
    w = values(x, "signs", "w")
    q = [v * h for v, h in zip(w, x.dur)]

    def line(q):
        d = {"q": q}
        if kind == "all":
            d["r"] = [3.0 * v + 1 for v in q]
        return pfm.MP(kind, x, d)

    for s in ("flat", "nest"):
        m = line(q) if s == "flat" else pfm.nest({"a": line([v * 0.25 for v in q]), "b": line([v * 0.75 for v in q])})
        r = pfm.build(m)
        for rel in ("same", "late", "wide", "disjoint"):
            y = window(k, sod, rel)
            p = values(y, "plain", "p")
            for fname in fnames:
                spec = FNS[fname]
                fn = spec and pf.create_peakfn(*spec)
                for freq in FREQS:
                    if fn and freq == "D" or tier == "quick" and freq == "D" and s == "nest":
                        continue
                    prices = pfm.build(pfm.MP("pri", y, {"p": p}))
                    for how in ("vol", "val"):
                        with rec.case(s=s, rel=rel, fn=fname, freq=freq, how=how):
                            e = expected(x, w, y, p, how, freq, spec)
                            rec.step()
                            if e is None:
                                try:
                                    got = r.hedge_with(prices, how, fn, freq)
                                except Exception:
                                    rec.outcome("nothing in common")
                                    continue
                                if len(got.index):
                                    raise Mismatch("hedge without complete product")
                                continue
                            got = r.hedge_with(prices, how, fn, freq)
                            hq = [a * h for a, h in zip(e[1], e[0].dur)]
                            want = pfm.MP("all", e[0], {"q": hq, "r": [a * b for a, b in zip(hq, e[2])]})
                            pfm.compare(got, want, f"hedge {how} {freq}", rel=1e-7)
                            rec.state("pfl", group, s, rel, fname, freq, how)
                            rec.outcome("line")
                            if rel == "same" and how == "val":
                                rec.step(2)
                                pfm.compare(got.hedge_with(pfm.build(pfm.MP("pri", e[0], {"p": e[2]})), how, fn, freq), want, "hedge of hedge", rel=1e-7)
                                if s == "flat" and how == "val" and fn is None and freq == "MS":
                                    d = pf.PfLine({"w": r.w}).hedge_with(prices)  # defaults
                                    pfm.compare(d, want, "defaults", rel=1e-7)


def run_bad(group, rec, tier):
    import portfolyo as pf
    from portfolyo import tools

    x = fixix("Europe/Berlin", "h", "00:00", "2020-01-01", 31)
    w, p = ser(x, values(x, "plain", "w"), None), ser(x, values(x, "plain", "p"), None)
    fn = pf.germanpower_peakfn
    others = {
        "freq": fixix("Europe/Berlin", "15min", "00:00", "2020-01-01", 31),
        "freq D": pfm.ix("Europe/Berlin", "D", "00:00", "2020-01-01", 31),
        "tz": fixix(None, "h", "00:00", "2020-01-01", 31),
        "tz2": fixix("Asia/Kolkata", "h", "00:00", "2020-01-01", 31),
        "sod": fixix("Europe/Berlin", "h", "06:00", "2020-01-01", 31),
    }
    for how in ("vol", "val"):
        for nm, y in others.items():
            with rec.case(how=how, other=nm):
                o = ser(y, values(y, "plain", "p"), None)
                rec.raises(lambda: tools.hedge.hedge(w, o, how), f"prices with other {nm}")
                rec.raises(lambda: tools.hedge.hedge(o, p, how), f"volume with other {nm}")
        for f in ("MS", "QS", "YS"):
            with rec.case(how=how, freq=f):
                z = pfm.ix("Europe/Berlin", f, "00:00", "2020-01-01", 3)
                a, b = ser(z, [1.0, 2, 3], None), ser(z, [5.0, 2, 3], None)
                rec.raises(lambda: tools.hedge.hedge(a, b, how, None, "YS"), f"source frequency {f}", ValueError)
                l, q = pf.PfLine({"w": a}), pf.PfLine({"p": b})
                rec.raises(lambda: l.hedge_with(q, how, None, "YS"), f"source frequency {f}", ValueError)
        for f in ("h", "15min", "W", "foo", None):
            with rec.case(how=how, freq=f):
                rec.raises(lambda: tools.hedge.hedge(w, p, how, None, f), f"product frequency {f}")
        with rec.case(how=how, day_peak=True):
            rec.raises(lambda: tools.hedge.hedge(w, p, how, fn, "D"), "peak products per day", ValueError)
            d = pfm.ix("Europe/Berlin", "D", "00:00", "2020-01-01", 31)
            rec.raises(lambda: tools.hedge.hedge(ser(d, [1.0] * 31, None), ser(d, [1.0] * 31, None), how, fn, "MS"), "peak products for daily data", ValueError)
        with rec.case(how=how, nofreq=True):
            nf = w.copy()
            nf.index = nf.index._with_freq(None)
            rec.raises(lambda: tools.hedge.hedge(nf, p, how), "no frequency", ValueError)
            rec.raises(lambda: tools.hedge.hedge(p, nf, how), "no frequency", ValueError)
        price = pf.PfLine({"p": p})
        for kind in ("pri", "rev"):
            for s in ("flat", "nest"):
                with rec.case(how=how, kind=kind, s=s):
                    from .c11 import make

                    l = pfm.build(make(kind, x, s))
                    rec.raises(lambda: l.hedge_with(price, how), f"hedge of {kind}", ValueError)
        rec.state(how)
    for how in ("foo", "", None, "VOL", 1):
        with rec.case(how=how):
            rec.raises(lambda: tools.hedge.hedge(w, p, how), f"how={how}", ValueError)
            l, q = pf.PfLine({"w": w}), pf.PfLine({"p": p})
            rec.raises(lambda: l.hedge_with(q, how), f"how={how}", ValueError)
