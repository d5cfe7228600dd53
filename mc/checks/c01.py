"""C01: dimensional and arithmetic consistency of constructed portfolio lines."""

import datetime as dt
import itertools

import pandas as pd

from .. import cal, pfm, real
from ..engine import Mismatch
from .c03 import daysix

PROP = "C01"
TECHNIQUE = "exhaustive enumeration of dimension subsets x units x calendars x single-value contradictions on the real constructor against a reference model"
EXPLANATION = (
    "Every non-empty subset of {w, q, p, r} x unit choice x value pattern (zeros, negatives) x index (frequency, timezone,"
    " start-of-day, DST) is put into the constructor; every single-position contradiction of every over-determined subset"
    " must be rejected; every relative position of the indices of two supplied series is tried."
)
INDICES = [
    ("Europe/Berlin", "D", "00:00", "2020-03-27", 4),
    ("Europe/Berlin", "D", "06:00", "2020-10-23", 4),
    ("America/New_York", "D", "00:00", "2020-10-31", 3),
    (None, "D", "06:00", "2020-02-27", 4),
    ("Europe/Berlin", "h", "00:00", "2020-03-29", 1),
    ("Europe/Berlin", "h", "06:00", "2020-10-24", 2),
    (None, "h", "00:00", "2020-03-29", 1),
    ("Europe/Berlin", "15min", "00:00", "2020-10-25", 1),
    ("Asia/Kolkata", "15min", "06:00", "2020-03-28", 1),
    ("Europe/Berlin", "MS", "00:00", "2020-02-01", 3),
    ("America/New_York", "MS", "06:00", "2020-10-01", 3),
    (None, "MS", "00:00", "2021-01-01", 3),
    ("Europe/Berlin", "QS", "00:00", "2020-01-01", 4),
    (None, "QS", "06:00", "2019-10-01", 3),
    ("America/New_York", "YS", "00:00", "2019-01-01", 3),
    ("Europe/Berlin", "YS", "06:00", "2020-01-01", 2),
    ("Europe/Berlin", "QS-FEB", "00:00", "2020-02-01", 3),
    (None, "YS-APR", "00:00", "2019-04-01", 3),
]
UNITS = {
    "w": [("MW", 1.0), ("kW", 1e-3), ("GW", 1e3), ("W", 1e-6)],
    "q": [("MWh", 1.0), ("GWh", 1e3), ("kWh", 1e-3), ("TWh", 1e6)],
    "p": [("Eur/MWh", 1.0), ("ctEur/kWh", 10.0), ("Eur/kWh", 1e3), ("ctEur/MWh", 0.01)],
    "r": [("Eur", 1.0), ("kEur", 1e3), ("ctEur", 0.01), ("MEur", 1e6)],
}
WRONG = {"w": ["Eur", "Eur/MWh", "h", "MWh"], "q": ["MW", "Eur", "degC"], "p": ["Eur", "MW", "MWh/Eur"], "r": ["MWh", "Eur/MWh", "h"]}


def mkix(t):
    tz, freq, sod, start, n = t
    if freq in cal.FIXED:
        return daysix(tz, freq, sod, dt.date.fromisoformat(start), n)
    return pfm.ix(tz, freq, sod, start, n)


SUBSETS = [s for n in range(1, 5) for s in itertools.combinations("wqpr", n)]


def kind_of(sub):
    vol, p, r = bool({"w", "q"} & set(sub)), "p" in sub, "r" in sub
    if vol + p + r >= 2:
        return "all"
    return "vol" if vol else "pri" if p else "rev"


PATTERNS = ["plain", "neg", "q0", "p0", "allq0"]


def truth(ixm, pattern):
    n = ixm.n
    q = [float((k * 7) % 13 + 2) * d for k, d in zip(range(n), ixm.dur)]
    p = [float((k * 5) % 11 + 3) * 4 for k in range(n)]
    if pattern == "neg":
        q = [-v if k % 2 else v for k, v in enumerate(q)]
        p = [-v if k % 3 == 1 else v for k, v in enumerate(p)]
    if pattern == "q0":
        q = [0.0 if k % 2 == 0 else v for k, v in enumerate(q)]
    if pattern == "p0":
        p = [0.0 if k % 2 == 0 else v for k, v in enumerate(p)]
    if pattern == "allq0":
        q = [0.0] * n
    return {"q": q, "w": [a / d for a, d in zip(q, ixm.dur)], "p": p, "r": [a * b for a, b in zip(q, p)]}


def groups(tier):
    out = []
    for k in range(len(INDICES)):
        out.append({"t": "data", "i": k})
        out.append({"t": "contra", "i": k})
    for k in range(len(INDICES)):
        if tier == "thorough" or k in (0, 5, 12):
            out.append({"t": "overlap", "i": k})
        if INDICES[k][1] not in cal.FIXED:
            out.append({"t": "zero", "i": k})
    out += [{"t": "wrong", "i": 0}, {"t": "wrong", "i": 9}]
    return out


def ser(vals, i, unit=None):
    return pd.Series([float(v) for v in vals], i, dtype=f"pint[{unit}]" if unit else float)


def expected(sub, t, ixm):
    kind = kind_of(sub)
    if kind == "all":
        return pfm.MP("all", ixm, {"q": t["q"], "r": t["r"]})
    c = pfm.BASE[kind][0]
    return pfm.MP(kind, ixm, {c: t[c]})


def run(group, rec, tier):
    import portfolyo as pf

    ixm = mkix(INDICES[group["i"]])
    i = ixm.real()
    if real.secs(i) != ixm.starts:
        raise RuntimeError("harness index")
    if group["t"] == "zero":
        return run_zero(rec, ixm, i, tier)
    if group["t"] == "data":
        long = ixm.n > 30
        for sub in SUBSETS:
            for pat in PATTERNS:
                if pat == "p0" and not ({"w", "q"} & set(sub)):
                    continue  # volume cannot be derived
                if pat in ("q0", "allq0") and set(sub) == {"p", "r"}:
                    pass  # q = 0/p = 0
                units = list(itertools.product(*(UNITS[c] for c in sub)))
                if tier != "thorough":
                    units = [tuple(UNITS[c][(j + a) % 4] for a, c in enumerate(sub)) for j in range((1 if long else 4) if pat == "plain" else (1 if ixm.n <= 12 else 0))]
                    units.append(tuple(UNITS[c][0] for c in sub))
                elif long:
                    units = units[::7]
                for u in [None, *units]:
                    with rec.case(sub="".join(sub), pat=pat, units=None if u is None else [x for x, _ in u]):
                        t = truth(ixm, pat)
                        if u is None:
                            data = {c: ser(t[c], i) for c in sub}
                        else:
                            data = {c: ser([v / f for v in t[c]], i, name) for c, (name, f) in zip(sub, u)}
                        pfl = pf.PfLine(data)
                        rec.step()
                        m = expected(sub, t, ixm)
                        pfm.compare(pfl, m)
                        if "p" in sub and "p" not in m.data and m.kind == "all":
                            # supplied prices are kept, also if there is no volume
                            if not real.allclose(real.mags(pfl.p), t["p"]):
                                raise Mismatch(f"supplied prices changed {real.fmt(real.mags(pfl.p))} != {real.fmt(t['p'])}")
                        if [real.ts_sec(pfl.start), real.ts_sec(pfl.end)] != [ixm.bounds[0], ixm.bounds[-1]]:
                            raise Mismatch(f"start/end {pfl.start}, {pfl.end}")
                        for c in set("wqpr") - set(pfm.COLS[m.kind]):
                            rec.raises(lambda: getattr(pfl, c), f"{m.kind} line has no {c}")
                        have = {"vol": ["volume"], "pri": ["price"], "rev": ["revenue"], "all": ["volume", "price", "revenue"]}[m.kind]
                        for part in ("volume", "price", "revenue"):
                            if part in have:
                                x = getattr(pfl, part)
                                exp = {"volume": lambda: pfm.MP("vol", ixm, {"q": t["q"]}), "price": lambda: pfm.MP("pri", ixm, {"p": [*map(pfm.div, t["r"], t["q"])] if "p" not in sub else t["p"]}), "revenue": lambda: pfm.MP("rev", ixm, {"r": t["r"]})}[part]()
                                if part == "price" and "p" not in sub and pat in ("q0", "allq0"):
                                    continue
                                pfm.compare(x, exp, part)
                            else:
                                rec.raises(lambda: getattr(pfl, part), f"{m.kind} line has no {part}")
                        rec.outcome(m.kind)
                        rec.state(m.key() if not long else ["".join(sub), pat, ixm.key()])
                        if u is None and pat == "plain":
                            rec.sample({"group": group, "sub": sub})
    elif group["t"] == "contra":
        # every single-position contradiction of over-determined data
        for sub in SUBSETS:
            over = []
            if {"w", "q"} <= set(sub):
                over += ["w", "q"]
            if {"p", "r"} <= set(sub) and ({"w", "q"} & set(sub)):
                over += [c for c in sub if c not in over]
            if not over:
                continue
            pos = range(ixm.n) if ixm.n <= 12 else ([0, 1, ixm.n // 2, ixm.n - 1] if tier != "thorough" else range(0, ixm.n, 3))
            for pat in ("plain", "q0", "neg") if tier == "thorough" or ixm.n <= 12 else ("q0",):
                for c in over:
                    for k in pos:
                        for how in ("scale", "add") if ixm.n <= 30 else ("scale",):
                            t = truth(ixm, pat)
                            sup = {x: list(t[x]) for x in sub}
                            v = sup[c][k]
                            sup[c][k] = v * 1.01 if how == "scale" else v + max(5.0, 0.02 * abs(v))
                            if sup[c][k] == v:
                                continue
                            if c == "p" and t["q"][k] == 0:
                                continue  # price without volume: no contradiction
                            with rec.case(sub="".join(sub), pat=pat, c=c, k=k, how=how):
                                rec.raises(lambda: pf.PfLine({x: ser(sup[x], i) for x in sub}), f"contradiction in {c}[{k}]")
                                rec.state("contra", sub, pat, c, k, how, ixm.key())
    elif group["t"] == "overlap":
        # series with distinct delivery periods: exactly the common period remains
        tz, freq, sod, start, n = INDICES[group["i"]]
        d = dt.date.fromisoformat(start)

        def win(a, b):
            if freq in cal.FIXED:
                return daysix(tz, freq, sod, d + dt.timedelta(days=a), b - a)
            return pfm.ix(tz, freq, sod, cal.add_date(d, freq, a).isoformat(), b - a)

        L = 3
        full = win(0, L)
        t = truth(win(-2, L + 2), "plain")
        st = win(-2, L + 2).starts
        for a in range(-2, L + 2):
            for b in range(a + 1, L + 3):
                o = win(a, b)
                for c1, c2 in itertools.permutations("wqpr", 2):
                    with rec.case(a=a, b=b, c1=c1, c2=c2):
                        def pick(x, c):
                            return [t[c][st.index(s)] if s in st else 1.0 for s in x.starts]

                        data = {c1: ser(pick(full, c1), full.real()), c2: ser(pick(o, c2), o.real())}
                        com = sorted(set(full.starts) & set(o.starts))
                        if not com:
                            rec.raises(lambda: pf.PfLine(data), "no common delivery period")
                            continue
                        pfl = pf.PfLine(data)
                        rec.step()
                        ci = [full.starts.index(s) for s in com]
                        cx = full.sub(ci[0], ci[-1] + 1)
                        tt = {c: pick(cx, c) for c in "wqpr"}
                        m = expected((c1, c2), tt, cx)
                        pfm.compare(pfl, m)
                        rec.state(m.key() if m.ix.n < 60 else [c1, c2, m.ix.key()])
        # incompatible indices
        for other in INDICES:
            o = mkix(other)
            if o.compatible(full):
                continue
            for c1, c2 in itertools.combinations("wqpr", 2):
                for x, y in ((c1, c2), (c2, c1)):
                    with rec.case(other=other, c1=x, c2=y):
                        data = {x: ser([1.0] * full.n, full.real()), y: ser([1.0] * o.n, o.real())}
                        if overlap_possible(full, o):
                            rec.raises(lambda: pf.PfLine(data), "incompatible indices")
    else:
        n = ixm.n
        s = ser([1.0 + k for k in range(n)], i)
        bad = []
        for c, us in WRONG.items():
            for u in us:
                bad.append((f"{c}[{u}]", lambda c=c, u=u: {c: ser([1.0 + k for k in range(n)], i, u)}))
                for c2 in "wqpr":
                    if c2 != c:
                        bad.append((f"{c}[{u}]+{c2}", lambda c=c, u=u, c2=c2: {c: ser([1.0] * n, i, u), c2: s}))
        bad += [
            ("float series", lambda: s),
            ("dimless", lambda: s.astype("pint[dimensionless]")),
            ("temperature", lambda: s.astype("pint[degC]")),
            ("duration", lambda: s.astype("pint[h]")),
            ("two floats", lambda: [s, s]),
            ("q twice", lambda: [s.astype("pint[MWh]"), s.astype("pint[GWh]")]),
            ("p twice", lambda: [s.astype("pint[Eur/MWh]"), s.astype("pint[Eur/kWh]")]),
            ("unknown key", lambda: {"x": s}),
            ("known+unknown key", lambda: {"w": s, "x": s}),
            ("nodim key", lambda: {"nodim": s}),
            ("w+nodim", lambda: {"w": s, "nodim": s}),
            ("w+agn", lambda: {"w": s, "agn": s}),
            ("number", lambda: 5.0),
            ("int", lambda: 5),
            ("quantity only", lambda: pf.Q_(5.0, "MW")),
            ("dict of numbers", lambda: {"w": 5.0, "p": 3.0}),
            ("none", lambda: None),
            ("string", lambda: "abc"),
            ("empty dict", lambda: {}),
            ("empty list", lambda: []),
            ("strings", lambda: {"w": pd.Series(["a"] * n, i)}),
            ("mixed units", lambda: {"w": pd.Series([pf.Q_(1.0, "MW")] + [pf.Q_(1.0, "Eur")] * (n - 1), i)}),
        ]
        for name, mk in bad:
            with rec.case(bad=name):
                rec.raises(lambda: pf.PfLine(mk()), name)
                rec.state("bad", name)


def run_zero(rec, ixm, i, tier):
    """price unknown (or anything) where the volume is zero"""
    import numpy as np
    import portfolyo as pf

    dur, group_no = ixm.dur, ixm.n + len(ixm.freq) + len(ixm.tz or '')
    for zeros in itertools.product((False, True), repeat=ixm.n):
        for unknown in ("nan", "inf", "-inf", "7.5"):
            for extra in (0.0, 40.0):
                q = [0.0 if z else 3.0 + 2 * k for k, z in enumerate(zeros)]
                p = [float(unknown) if z else 20.0 - 15 * k for k, z in enumerate(zeros)]
                given = [extra if z else a * b for a, b, z in zip(q, p, zeros)]
                data = {"w": [a / h for a, h in zip(q, dur)], "q": q, "p": p, "r": given}
                for sub in ("qp", "wp", "wqp", "qr", "wr", "wqr", "qpr", "wpr", "wqpr"):
                    for how in range(3) if tier == "thorough" else [(len(sub) + sum(zeros) + group_no) % 3]:
                        with rec.case(zeros=zeros, unknown=unknown, extra=extra, sub=sub, how=how):
                            if "r" not in sub and extra or "p" not in sub and unknown != "nan":
                                continue
                            d = {c: ser(data[c], i, UNITS[c][0][0] if how != 1 else None) for c in sub}
                            d = pd.DataFrame(d) if how == 2 else d
                            if extra and unknown == "7.5" and any(zeros) and "p" in sub:
                                rec.raises(lambda: pf.PfLine(d), "revenue without volume at a known price", ValueError)
                                continue
                            a = pf.PfLine(d)
                            rec.step()
                            rec.state(ixm.key(), zeros, unknown, extra, sub)
                            if a.kind is not pf.Kind.COMPLETE:
                                raise Mismatch(f"kind {a.kind}")
                            for c, want in (("w", data["w"]), ("q", q), ("r", given)):
                                got = np.asarray(getattr(a, c).pint.magnitude, float)
                                if not np.allclose(got, want, rtol=1e-7, atol=1e-9):
                                    raise Mismatch(f"{c}: {list(got)}, expected {want}")
                            got = np.asarray(a.p.pint.magnitude, float)
                            if not np.allclose(got[np.array(q) != 0], np.array(p)[np.array(q) != 0]):
                                raise Mismatch(f"p: {list(got)}, expected {p}")


def overlap_possible(a, b):
    return True
