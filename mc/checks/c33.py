"""C33: example objects are as requested, whatever the random generator returns."""

import contextlib
import datetime as dt
import itertools

import numpy as np
import pandas as pd

from .. import cal, pfm, real
from ..engine import Mismatch

PROP = "C33"
TECHNIQUE = "stateless exploration of the real code under a controlled random generator: depth-first enumeration of all outcomes (both ends and middle of every range, three patterns for every array) of the first k random decisions, for all combinations of parameters"
EXPLANATION = (
    "The functions of numpy's random module are replaced by a scheduler that decides every outcome.  For all parameters (frequency, timezone, start-of-day, kind, number of levels and children,"
    " sign, units), all sequences of outcomes up to the bound are enumerated, and the resulting index, value, series, frame, portfolio line or state must have the"
    " requested frequency, length, timezone, kind, structure, names and sign, consist of complete delivery days and be complete and finite.  With a seed, equal calls give equal objects."
)
ASSUMPTIONS = ["outcomes inside a range are represented by its ends and middle", "the size of the random part of the mock-up curves is not judged"]
CONF = [
    ("Europe/Berlin", "MS", "00:00", "2020-02-01", 14),
    (None, "QS", "00:00", "2020-04-01", 5),
    ("UTC", "YS", "00:00", "2019-01-01", 2),
    ("Europe/Berlin", "D", "00:00", "2020-02-28", 33),
    ("America/New_York", "D", "06:00", "2020-10-31", 40),
    ("Europe/Berlin", "h", "00:00", "2020-03-28", 3),
    (None, "h", "06:00", "2020-10-25", 2),
    ("Europe/Berlin", "15min", "00:00", "2020-10-25", 1),
    ("Asia/Kolkata", "15min", "06:00", "2020-01-31", 2),
    ("Europe/Berlin", "QS-FEB", "06:00", "2020-02-01", 3),
    ("Asia/Kolkata", "YS-APR", "00:00", "2020-04-01", 2),
]
FREQS = ["15min", "h", "D", "MS", "QS", "YS", "QS-FEB", "YS-APR"]


class Choices:
    """Scheduler of random outcomes: replays a prefix, takes the first outcome after it."""

    def __init__(self, prefix, depth):
        self.prefix, self.depth, self.trace = prefix, depth, []

    def pick(self, options):
        k = len(self.trace)
        c = self.prefix[k] if k < len(self.prefix) else 0
        self.trace.append((c, len(options) if k < self.depth else 1))
        return options[c]

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        opts = list(range(low, high))
        if len(opts) > 3:
            opts = [low, (low + high) // 2, high - 1]
        v = self.pick(opts)
        return v if size is None else np.full(size, v)

    def array(self, shape):
        how = self.pick(["low", "high", "alternate"])
        a = np.zeros(shape) if how == "low" else np.full(shape, 0.999)
        if how == "alternate":
            a.flat[::2] = 0.0
        return a

    def random(self, size=None):
        return self.pick([0.0, 0.999, 0.5]) if size is None else self.array(size)

    def rand(self, *shape):
        return self.random() if not shape else self.array(shape)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.random(size)

    def seed(self, *a):
        pass


@contextlib.contextmanager
def controlled(ch):
    names = ["randint", "random", "rand", "uniform", "seed", "random_sample"]
    old = {n: getattr(np.random, n) for n in names}
    try:
        for n in names:
            setattr(np.random, n, getattr(ch, n if n != "random_sample" else "random"))
        yield
    finally:
        for n, f in old.items():
            setattr(np.random, n, f)


def explore(rec, fn, check, depth, what, **ident):
    """All outcomes of the first `depth` random decisions."""
    prefix = []
    while True:
        with rec.case(**ident, choices=prefix):
            ch = Choices(prefix, depth)
            with controlled(ch):
                res = fn()
            rec.step()
            check(res)
            rec.state(what, sorted(ident.items()), [c for c, _ in ch.trace[:depth]])
        trace = ch.trace[:depth]
        while trace and trace[-1][0] + 1 >= trace[-1][1]:
            trace.pop()
        if not trace:
            return
        prefix = [c for c, _ in trace[:-1]] + [trace[-1][0] + 1]


def mkix(c):
    tz, freq, sod, start, n = CONF[c]
    if freq in cal.FIXED:
        d = dt.date.fromisoformat(start)
        n = (cal.combine(d + dt.timedelta(days=n), sod, tz) - cal.combine(d, sod, tz)) // (3600 if freq == "h" else 900)
    return pfm.ix(tz, freq, sod, start, n)


def groups(tier):
    out = [{"part": "index", "freq": f, "tz": tz} for f in FREQS for tz in (None, "Europe/Berlin", "America/New_York", "Asia/Kolkata")]
    out += [{"part": "series", "c": c} for c in range(len(CONF))]
    out += [{"part": "line", "c": c, "k": k} for c in range(len(CONF)) for k in pfm.KINDS]
    out += [{"part": "state", "c": c} for c in range(len(CONF))]
    out += [{"part": "curve", "tz": tz} for tz in (None, "Europe/Berlin", "America/New_York")]
    out += [{"part": "seed", "c": c} for c in range(len(CONF))]
    out += [{"part": "name"}]
    return out


# ---- index


def run_index(rec, tier, freq, tz):
    from portfolyo import dev

    short = freq in cal.FIXED
    for sod in (None, dt.time(6, 0), dt.time(0, 0)):
        ss = "06:00" if sod == dt.time(6, 0) else "00:00"
        for start in (None, "2020-04-01", "2020-2-1", "2020-10-24"):
            for n in (None, 1, 2, 3, 24, 25, 96, 97, 100, 250):
                if n and n > {"MS": 100, "QS": 30, "YS": 3}.get(freq[:2], 1000):
                    continue  # not beyond 2037, where pandas knows no DST

                def check(i):
                    d0 = cal.sec2local(real.ts_sec(i[0]), tz)
                    s0 = real.ts_sec(i[0])
                    if i.freq is None or not pfm.same_freq(i.freq, freq) or real.tzname(i.tz) != tz:
                        raise Mismatch(f"frequency {i.freq}, timezone {i.tz}")
                    if s0 != cal.floor(s0, freq, ss, tz) or d0.time() != cal.sod_time(ss):
                        raise Mismatch(f"starts at {i[0]}")
                    b = cal.periods(s0, freq, tz, len(i))
                    b = [v for v in b if v < 2140000000]  # until 2037, after which pandas knows no DST
                    if real.secs(i)[: len(b) - 1] != b[:-1]:
                        raise Mismatch("has gaps")
                    if short and len(b) == len(i) + 1 and cal.sec2local(b[-1], tz).time() != cal.sod_time(ss):
                        raise Mismatch(f"ends at {real.stamp(b[-1], tz)}, which is not a full day")
                    if start is not None:
                        y, m, d = (int(v) for v in start.split("-"))
                        e = cal.combine(dt.date(y, m, d), ss, tz)
                        e = e if e == cal.floor(e, freq, ss, tz) else cal.ceil(e, freq, ss, tz)
                        if s0 != e:
                            raise Mismatch(f"starts at {i[0]}, expected {real.stamp(e, tz)}")
                    elif not 2016 <= d0.year <= 2025:
                        raise Mismatch(f"starts in {d0.year}")
                    if n is not None and not short and len(i) != n:
                        raise Mismatch(f"{len(i)} periods, not {n}")
                    if n is not None and short and not n - (25 if freq == "h" else 100) < len(i) <= n:
                        raise Mismatch(f"{len(i)} periods, not nearly {n}")

                def fn():
                    return dev.get_index(freq, tz, start, n, sod)

                e = start and cal.combine(dt.date(*(int(v) for v in start.split("-"))), ss, tz)
                day = cal.right(e, "D", tz) - e if e else 86400
                if short and n is not None and n < day / (3600 if freq == "h" else 900):
                    with rec.case(n=n, start=start, sod=ss):
                        rec.raises(lambda: fn(), f"{n} periods with frequency {freq}")
                    continue
                if n is None and (short and start is not None and tier == "quick" and sod is None):
                    continue
                explore(rec, fn, check, 4, "index", freq=freq, tz=tz, sod=str(sod), start=start, n=n)


# ---- values and series

UN = {"w": "MW", "q": "MWh", "p": "Eur/MWh", "r": "Eur"}


def run_series(rec, tier, c):
    from portfolyo import dev, tools

    x = mkix(c)
    depth = 5 if tier == "thorough" else 3

    for name in ("w", "q", "p", "r", "nodim", "x", None):
        for has_unit in (True, False):

            def check(s, name=name, has_unit=has_unit):
                pfm.cmp_index(s.index, x)
                m = np.asarray(s.pint.magnitude if hasattr(s.dtype, "units") else s, float)
                if not np.isfinite(m).all() or (m <= 0).any():
                    raise Mismatch(f"values of {name}: {m[:5]}")
                if name in UN and s.name != name:
                    raise Mismatch(f"{name} has name {s.name}")
                if has_unit and name in UN:
                    if not real.same_unit(s, UN[name]):
                        raise Mismatch(f"unit of {name}: {s.dtype}")
                elif has_unit and name == "nodim":
                    if not s.pint.units.dimensionless:
                        raise Mismatch(f"unit {s.dtype}")
                elif s.dtype != float:
                    raise Mismatch(f"{name} without unit: {s.dtype}")

            def fn(name=name, has_unit=has_unit):
                i = x.real()
                keep = i.copy()
                s = dev.get_series(i, name, has_unit)
                if not i.equals(keep):
                    raise Mismatch("index was changed")
                return s

            explore(rec, fn, check, depth, "series", c=c, name=name, has_unit=has_unit)
        # units do not change the numbers
        if name in UN:
            for prefix in itertools.product(range(3), repeat=2):
                with rec.case(c=c, name=name, both=prefix):
                    with controlled(Choices(prefix, 2)):
                        a = dev.get_series(x.real(), name, True)
                    with controlled(Choices(prefix, 2)):
                        b = dev.get_series(x.real(), name, False)
                    if not np.allclose(np.asarray(a.pint.magnitude, float), np.asarray(b, float), rtol=1e-9):
                        raise Mismatch(f"{name} with unit {a.iloc[0]}, without {b.iloc[0]}")
                    rec.step(2)
    for r in range(1, 4):
        for cols in itertools.permutations("wqpr", r):
            with rec.case(c=c, cols=cols):
                with controlled(Choices([1], 1)):
                    df = dev.get_dataframe(x.real(), "".join(cols))
                if list(df.columns) != list(cols):
                    raise Mismatch(f"columns {list(df.columns)}")
                pfm.cmp_index(df.index, x)
                for col in cols:
                    if not real.same_unit(df[col], UN[col]):
                        raise Mismatch(f"unit of {col}")
                rec.step()
                rec.state("frame", c, cols)
    if c == 0:
        for name, u in UN.items():
            for magn in (None, 0.0, -3.5, 7):

                def check(q, name=name, magn=magn):
                    if tools.unit.to_name(q.units) != name or (magn is not None and not real.close(q.to(UN[name]).magnitude, magn)) or (magn is None and not 0 <= q.magnitude <= 200):
                        raise Mismatch(f"{name}, {magn}: {q}")

                explore(rec, lambda: dev.get_value(name, True, magn), check, 2, "value", name=name, magn=magn)
                explore(rec, lambda: tools.unit.Q_(dev.get_value(name, False, magn), UN[name]), check, 2, "value", name=name, magn=magn, has_unit=False)


# ---- portfolio lines


def levels(p):
    import portfolyo as pf

    return 1 if p.structure is pf.Structure.FLAT else 1 + max(levels(ch) for ch in dict(p.items()).values())


def run_line(rec, tier, c, k):
    from portfolyo import dev
    import portfolyo as pf

    x = mkix(c)
    kinds = {"vol": pf.Kind.VOLUME, "pri": pf.Kind.PRICE, "rev": pf.Kind.REVENUE, "all": pf.Kind.COMPLETE}
    kind = kinds[k]
    big = x.n > 50

    def base(p):
        pfm.cmp_index(p.index, x)
        if p.kind is not kind:
            raise Mismatch(f"kind {p.kind}")
        for col in {"vol": "wq", "pri": "p", "rev": "r", "all": "wqpr"}[k]:
            if not np.isfinite(np.asarray(getattr(p, col).pint.magnitude, float)).all():
                if not (col == "p" and k == "all"):
                    raise Mismatch(f"{col} not finite")

    def tree(p, nlevels, count, positive, names):
        base(p)
        if nlevels == 1:
            if p.structure is not pf.Structure.FLAT:
                raise Mismatch("too many levels")
            cols = {"vol": "wq", "pri": "p", "rev": "r", "all": "qr"}[k]
            signs = {bool(v > 0) for col in cols for v in np.asarray(getattr(p, col).pint.magnitude, float)}
            if positive and signs != {True}:
                raise Mismatch(f"negative values in {names}")
            return
        if p.structure is pf.Structure.FLAT:
            raise Mismatch(f"flat, but {nlevels} levels expected")
        ch = dict(p.items())
        if len(ch) != count:
            raise Mismatch(f"{len(ch)} children, expected {count}: {list(ch)}")
        for n, sub in ch.items():
            if names and not n.startswith(names[-1] + "-"):
                raise Mismatch(f"child {n} of {names}")
            tree(sub, nlevels - 1, count, positive, [*names, n])

    for nlevels in (1, 2, 3) if not big or tier == "thorough" else (1, 2):
        for count in (1, 2, 3) if nlevels > 1 else (2,):
            if tier == "quick" and (nlevels == 3 and count == 3 or (nlevels + count + c + len(k)) % 2 and nlevels > 1 and c > 2):
                continue
            for positive in (True, False):

                def fn():
                    i = x.real()
                    p = dev.get_pfline(i, kind, nlevels, count, positive=positive)
                    if not i.equals(x.real()):
                        raise Mismatch("index was changed")
                    return p

                # choices: randint decides about the sign
                depth = {1: 4, 2: 2, 3: 1}[nlevels] if tier == "quick" else {1: 7, 2: 5, 3: 4}[nlevels]
                explore(rec, fn, lambda p: tree(p, nlevels, count, positive, []), min(depth, 3) if big else depth, "line", c=c, k=k, nlevels=nlevels, count=count, positive=positive)
                explore_signs(rec, fn, lambda p: tree(p, nlevels, count, positive, []), 3 if tier == "quick" else 5, "sign", c=c, k=k, nlevels=nlevels, count=count, positive=positive)
    with rec.case(c=c, k=k, bad=1):
        rec.raises(lambda: dev.get_pfline(x.real(), kind, 2, 0), "no children", ValueError)
        rec.raises(lambda: dev.get_nestedpfline(x.real(), kind, 1), "nested with one level", ValueError)
    with rec.case(c=c, k=k, flat=1):
        p = dev.get_flatpfline(x.real(), kind)
        tree(p, 1, 0, False, [])
        tree(dev.get_nestedpfline(x.real(), kind), 2, 2, False, [])
        tree(dev.get_nestedpfline(x.real(), kind, 3, 1), 3, 1, False, [])
        rec.step(3)
    for mx, mc in itertools.product((1, 2, 3) if not big and (tier == "thorough" or c < 2) else (2,), (1, 2)):
        for positive in (True, False):

            def check(p):
                if not 1 <= levels(p) <= mx:
                    raise Mismatch(f"{levels(p)} levels, at most {mx}")

                def sub(q):
                    base(q)
                    if q.structure is pf.Structure.FLAT:
                        return tree(q, 1, 0, positive, [])
                    ch = dict(q.items())
                    if not 1 <= len(ch) <= mc:
                        raise Mismatch(f"{len(ch)} children, at most {mc}")
                    for s in ch.values():
                        sub(s)

                sub(p)

            explore_signs(rec, lambda: dev.get_randompfline(x.real(), kind, mx, mc, positive=positive), check, (3 if big else 4) if tier == "quick" else 7, "random", c=c, k=k, mx=mx, mc=mc, positive=positive)


class OnlyInt(Choices):
    """Enumerates the outcomes of randint only; all others are fixed."""

    def random(self, size=None):
        return 0.4 if size is None else np.full(size, 0.4)

    def array(self, shape):
        return np.full(shape, 0.4)


def explore_signs(rec, fn, check, depth, what, **ident):
    prefix = []
    while True:
        with rec.case(**ident, ints=prefix):
            ch = OnlyInt(prefix, depth)
            with controlled(ch):
                res = fn()
            rec.step()
            check(res)
            rec.state(what, sorted(ident.items()), [c for c, _ in ch.trace[:depth]])
        trace = ch.trace[:depth]
        while trace and trace[-1][0] + 1 >= trace[-1][1]:
            trace.pop()
        if not trace:
            return
        prefix = [c for c, _ in trace[:-1]] + [trace[-1][0] + 1]


# ---- portfolio states


def is_peak(s, tz):
    d = cal.sec2local(s, tz)
    return d.weekday() < 5 and 8 <= d.hour < 20


def run_state(rec, tier, c):
    from portfolyo import dev
    import portfolyo as pf

    x = mkix(c)
    tz, freq, sod = x.tz, x.freq, CONF[c][2]

    def check(pfs, avg=None):
        if not isinstance(pfs, pf.PfState):
            raise Mismatch(f"{type(pfs)}")
        pfm.cmp_index(pfs.index, x)
        wo = np.asarray(pfs.offtakevolume.w.pint.m_as("MW") if hasattr(pfs.offtakevolume.w.pint, "m_as") else pfs.offtakevolume.w.pint.magnitude, float)
        ws, ps = (np.asarray(v.pint.magnitude, float) for v in (pfs.sourced.w, pfs.sourced.p))
        pu = np.asarray(pfs.unsourcedprice.p.pint.magnitude, float)
        for nm, v, sign in (("offtake", wo, -1), ("sourced", ws, 1), ("sourced price", ps, 1), ("unsourced price", pu, 1)):
            if not np.isfinite(v).all() or not (sign * v > 0).all():
                raise Mismatch(f"{nm}: {v[:5]}")
        if avg is not None and not avg * 0.2 <= -wo.mean() <= avg * 2:
            raise Mismatch(f"average of offtake {wo.mean()}, requested {avg}")
        if (ps < 80 - 1e-6).any() or (ps > 120 + 1e-6).any():
            raise Mismatch(f"sourced price {ps.min()} to {ps.max()}")
        if sod == "00:00":
            gr = {}
            for j, s in enumerate(x.starts):
                d = cal.sec2local(s, tz)
                gr.setdefault((d.year, d.month, freq in cal.FIXED and is_peak(s, tz)), []).append(j)
            for key, jj in gr.items():
                m = -wo[jj].mean()
                if not (real.close(ws[jj].min(), ws[jj].max(), rel=1e-6) and real.close(ps[jj].min(), ps[jj].max(), rel=1e-6)):
                    raise Mismatch(f"sourced volume or price not uniform in {key}")
                if not 0.4 - 1e-6 <= ws[jj[0]] / m <= 0.8 + 1e-6:
                    raise Mismatch(f"sourced fraction {ws[jj[0]] / m} in {key}")

    for avg in (None, 1.0, 250.0):

        def fn():
            i = x.real()
            pfs = dev.get_pfstate(i, avg)
            if not i.equals(x.real()):
                raise Mismatch("index was changed")
            return pfs

        explore(rec, fn, lambda p: check(p, avg), 4 if tier == "quick" else 6, "state", c=c, avg=avg)
    for num in (1, 2, 3, 4, 6):
        with rec.case(c=c, num=num):
            d = dev.get_pfstates(x.real(), num)
            if len(d) != num or len(set(d)) != num:
                raise Mismatch(f"{len(d)} states")
            for p in d.values():
                check(p)
            rec.step()
            rec.state("states", c, num)


# ---- mock-up curves


def run_curve(rec, tz):
    from portfolyo import dev

    i = pd.date_range("2021-01-01", "2022-01-01", freq="h", tz=tz, inclusive="left")
    month, wday, hour = (np.array([getattr(t, a) for t in i]) for a in ("month", "dayofweek", "hour"))
    avg = lambda s, m: float(np.asarray(s, float)[m].mean())
    for a, amp, rnd in itertools.product((1.0, 50.0, 100.0), (0.05, 0.2, 0.3), range(3)):
        with rec.case(tz=tz, avg=a, amp=amp, rnd=rnd):
            w0, w1, w2, w3 = (_w(dev, i, a, *amps, rnd) for amps in ((0, 0, 0), (amp, 0, 0), (0, amp, 0), (0, 0, amp)))
            if not np.allclose(w0, a):
                raise Mismatch(f"without amplitude: {w0[:3]}")
            if not avg(w1, month == 1) > a > avg(w1, month == 7):
                raise Mismatch("winter offtake is not higher than summer offtake")
            if not avg(w2, wday == 2) > avg(w2, wday > 4):
                raise Mismatch("midweek offtake is not higher than weekend offtake")
            if not avg(w3, (hour > 11) & (hour < 16)) > avg(w3, hour < 5):
                raise Mismatch("midday offtake is not higher than night offtake")
            p0, p1, p2, p3 = (np.asarray(dev.p_marketprices(i, a, *amps, has_unit=False), float) for amps in ((0, 0, 0), (amp, 0, 0), (0, amp, 0), (0, 0, amp)))
            peak = (wday < 5) & (hour >= 8) & (hour < 20)
            if not np.allclose(p0, a):
                raise Mismatch(f"without amplitude: {p0[:3]}")
            if not avg(p1, month == 1) > avg(p1, month == 7):
                raise Mismatch("winter price is not higher than summer price")
            if not avg(p3, peak) > avg(p3, ~peak):
                raise Mismatch("peak price is not higher than offpeak price")
            for name, base, curve, k in (("w", a, w1, 1.1), ("w", a, w2, 1.5), ("w", a, w3, 1.1), ("p", a, p1, 1.1), ("p", a, p2, 1.1), ("p", a, p3, 1.1)):
                d = np.abs(np.asarray(curve, float) - base).max() / base
                if not amp * 0.5 <= d <= amp * k:
                    raise Mismatch(f"{name}: amplitude {d}, requested {amp}")
            rec.step(8)
            rec.state(tz, a, amp, rnd)
    with rec.case(tz=tz, what="price by weekday"):
        p = np.asarray(dev.p_marketprices(i, 100.0, 0, 0.2, 0, has_unit=False), float)
        byday = [round(avg(p, wday == d), 3) for d in range(7)]
        rec.step()
        if not min(byday[1:4]) > max(byday[5:]):
            raise Mismatch(f"midweek price is not higher than weekend price: {byday}")
    for amps in ((0.5, 0.3, 0.3), (1.1, 0, 0), (0, 0, 1.01)):
        with rec.case(tz=tz, amps=amps):
            rec.raises(lambda: dev.w_offtake(i[:48], 100.0, *amps), f"amplitudes {amps}", ValueError)
            rec.raises(lambda: dev.p_marketprices(i[:48], 100.0, *amps), f"amplitudes {amps}", ValueError)
    with rec.case(tz=tz, units=1):
        for f, u in ((dev.w_offtake, "MW"), (dev.p_marketprices, "Eur/MWh")):
            for ch in range(3):
                with controlled(Choices([ch], 1)):
                    a = f(i[:96])
                with controlled(Choices([ch], 1)):
                    b = f(i[:96], has_unit=False)
                if b.dtype != float or not np.allclose(np.asarray(a.pint.to(u).pint.magnitude, float), b):
                    raise Mismatch(f"{u}: {a.iloc[0]} and {b.iloc[0]}")
        rec.step(4)


def _w(dev, i, a, y, w, d, rnd):
    with controlled(Choices([rnd], 1)):
        return np.asarray(dev.w_offtake(i, a, y, w, d, 0.0, has_unit=False), float)


# ---- seeds


def run_seed(rec, c):
    from portfolyo import dev

    x = mkix(c)
    i = x.real
    calls = {
        "index": lambda s: list(dev.get_index(x.freq if x.freq not in cal.FIXED else "D", x.tz, _seed=s)),
        "value": lambda s: str(dev.get_value("w", _seed=s)),
        "series": lambda s: [str(v) for v in dev.get_series(i(), "w", _seed=s)],
        "nodim": lambda s: [str(v) for v in dev.get_series(i(), "nodim", _seed=s)],
        "frame": lambda s: dev.get_dataframe(i(), "wqpr", _seed=s).map(str).values.tolist(),
        "flat": lambda s: pfm.observe(dev.get_flatpfline(i(), _seed=s)),
        "line": lambda s: pfm.observe(dev.get_pfline(i(), nlevels=2, _seed=s)),
        "nested": lambda s: pfm.observe(dev.get_nestedpfline(i(), _seed=s)),
        "random": lambda s: pfm.observe(dev.get_randompfline(i(), _seed=s)),
        "state": lambda s: pfm.observe(dev.get_pfstate(i(), _seed=s).sourced),
    }
    for name, fn in calls.items():
        for s in (1, 2, 42):
            with rec.case(c=c, name=name, seed=s):
                np.random.seed(7)
                a = fn(s)
                np.random.seed(99)
                np.random.rand(13)
                b = fn(s)
                if str(a) != str(b):
                    raise Mismatch(f"{name} with seed {s} is not reproducible")
                rec.step(2)
                rec.state(c, name, s)


def run_name(rec):
    """Name of the index that is passed (its timestamps: see above)."""
    from portfolyo import dev

    calls = {
        "get_series": lambda i: dev.get_series(i, "w"),
        "get_dataframe": lambda i: dev.get_dataframe(i),
        "w_offtake": lambda i: dev.w_offtake(i),
        "p_marketprices": lambda i: dev.p_marketprices(i),
        "wp_sourced": lambda i: dev.wp_sourced(dev.w_offtake(i)),
        "get_pfstate": lambda i: dev.get_pfstate(i),
    }
    for name, fn in calls.items():
        with rec.case(fn=name):
            i = mkix(0).real()
            fn(i)
            rec.step()
            rec.state("name", name)
            if i.name is not None:
                raise Mismatch(f"name of index became {i.name}")


def run(group, rec, tier):
    part = group["part"]
    if part == "index":
        run_index(rec, tier, group["freq"], group["tz"])
    elif part == "series":
        run_series(rec, tier, group["c"])
    elif part == "line":
        run_line(rec, tier, group["c"], group["k"])
    elif part == "state":
        run_state(rec, tier, group["c"])
    elif part == "curve":
        run_curve(rec, group["tz"])
    elif part == "name":
        run_name(rec)
    else:
        run_seed(rec, group["c"])
