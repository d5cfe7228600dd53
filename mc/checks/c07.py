"""C07: selecting a delivery period returns exactly its timestamps and values."""

import datetime as dt
import itertools

import pandas as pd

from .. import cal, pfm, pfsm, real
from ..engine import Mismatch
from .c03 import CONF, daysix, window
from .c11 import make

PROP = "C07"
TECHNIQUE = "exhaustive enumeration of all pairs of bounds, all subsets of timestamps and all sequences of two selections, executed on the real code against a reference model"
EXPLANATION = (
    "Bounds are taken on, halfway between and outside all period starts (and omitted), as timestamps, timestamps in"
    " another timezone, datetime objects, full, daily, monthly and yearly strings; every ordered pair is used with both selection"
    " methods.  All 2^n subsets of timestamps are selected as boolean mask and as list (non-contiguous ones must be"
    " rejected).  Selections of selections are compared with the model as well."
)
# configurations of C03 and some short hourly ones that contain a DST change
EXTRA = [
    ("Europe/Berlin", "h", "00:00", "2020-10-24", 3),
    ("Europe/Berlin", "h", "06:00", "2020-03-28", 2),
    ("America/New_York", "15min", "00:00", "2020-03-08", 1),
    ("Asia/Kolkata", "D", "06:00", "2020-02-27", 5),
]
KS = [("vol", "flat"), ("pri", "flat"), ("rev", "nest"), ("all", "deep"), ("all", "flat"), ("pri", "nest"), ("vol", "nest"), ("rev", "flat")]


def mkix(c, tier):
    if c < len(CONF):
        return window(c, 0, min(CONF[c][4], 4 if CONF[c][1] not in cal.FIXED else 2))
    tz, freq, sod, start, n = EXTRA[c - len(CONF)]
    d = dt.date.fromisoformat(start)
    if freq in cal.FIXED:
        return daysix(tz, freq, sod, d, n)
    return pfm.ix(tz, freq, sod, start, n)


def groups(tier):
    out = []
    for c in range(len(CONF) + len(EXTRA)):
        for a, (k, s) in enumerate(KS):
            if tier == "quick" and c not in (0, 2) and (a + c) % 4:
                continue
            out += [{"c": c, "k": k, "s": s, "t": t} for t in ("loc", "slice", "sub")]
        for a in range(2):
            if tier == "thorough" or c % 3 == a:
                out += [{"c": c, "k": "pfs", "s": s, "t": t} for s in (["nested", "flat"][a],) for t in ("loc", "slice", "sub")]
    return out


def run(group, rec, tier):
    c, kind, s = group["c"], group["k"], group["s"]
    x = mkix(c, tier)
    if kind == "pfs":
        m = pfsm.make(x, 2, s, s)
        a = pfsm.build(m)
        compare, fp = pfsm.compare, pfsm.fingerprint
    else:
        m = make(kind, x, s)
        a = pfm.build(m)
        compare, fp = pfm.compare, pfm.fingerprint
    quickcmp = {}

    def check(get, want, what, must=True):
        """want: list of starts that must be kept"""
        rec.step()
        idx = [k for k, t in enumerate(x.starts) if t in want]
        contiguous = bool(idx) and idx[-1] - idx[0] + 1 == len(idx)
        if contiguous and x.freq in cal.FIXED:  # (quarter)hourly data must cover whole days
            b = [real.stamp(x.bounds[k], x.tz).time() for k in (idx[0], idx[-1] + 1)]
            contiguous = b[0] == b[1] and not (x.freq == "15min" and b[0].minute)
        if not contiguous:
            rec.raises(get, what)
            rec.outcome("rejected: empty" if not idx else "rejected: gaps")
            return None
        try:
            got = get()
        except Exception:
            if must:
                raise
            rec.outcome("not supported")
            return None
        sub = m.sub(idx[0], idx[-1] + 1)
        if type(got) is not type(a):
            raise Mismatch(f"{what}: {type(got)} instead of {type(a)}")
        key = (idx[0], idx[-1])
        if kind == "pfs" and key in quickcmp:
            o = fp(got)
            if o != quickcmp[key]:
                raise Mismatch(f"{what}: {o} instead of {quickcmp[key]}")
        else:
            compare(got, sub, what)
            quickcmp[key] = fp(got)
        rec.state(sub.key())
        rec.outcome("selected")
        return got, sub

    f0 = fp(a)
    {"loc": run_loc, "slice": run_slice, "sub": run_sub}[group["t"]](a, m, x, check, rec, tier, group)
    with rec.case(immut=True):
        rec.expect(fp(a) == f0, "selecting changed the object")


def points(x):
    """instants on, between and outside period starts (for (quarter)hourly data: around day and UTC-offset changes)"""
    b = x.bounds
    pts = [b[0] - (b[1] - b[0]), b[0] - 1]
    if x.freq in cal.FIXED:
        t0, o0 = real.stamp(b[0], x.tz).time(), [real.stamp(t, x.tz).utcoffset() for t in b]
        keep = {0, 1, x.n - 1}
        for k in range(1, x.n):
            if real.stamp(b[k], x.tz).time() == t0:
                keep |= {k - 1, k, k + 1}
            if o0[k] != o0[k - 1]:
                keep |= {k - 1, k}
    else:
        keep = range(x.n)
    for k in sorted(keep):
        s, e = b[k], b[k + 1]
        pts += [s, s + (e - s) // 2] if x.freq not in cal.FIXED or k % 2 else [s]
    pts += [b[-1] - 1, b[-1], b[-1] + (b[-1] - b[-2])]
    return pts


def reps(t, tz):
    ts = real.stamp(t, tz)
    yield "ts", ts
    if tz is not None:
        yield "other tz", ts.tz_convert("Asia/Tokyo")
    yield "datetime", ts.to_pydatetime()
    if tz is None or cal.combine(ts.date(), "00:00", tz) + 86400 == cal.combine(ts.date() + dt.timedelta(days=1), "00:00", tz):
        yield "str", ts.strftime("%Y-%m-%d %H:%M:%S")


def pairs(p, q, tz):
    """both bounds in the same representation (mixing them is refused by pandas in some cases)"""
    names = ["ts", "other tz", "datetime", "str"]
    pr = {k: None for k in names} if p is None else dict(reps(p, tz))
    qr = {k: None for k in names} if q is None else dict(reps(q, tz))
    both = [k for k in names if k in pr and k in qr]
    return [(k, pr[k]) for k in both], [(k, qr[k]) for k in both]


def run_loc(a, m, x, check, rec, tier, group):
    pts = [None, *points(x)]
    for i, p in enumerate(pts):
        for j, q in enumerate(pts):
            want = [t for t in x.starts if (p is None or t >= p) and (q is None or t <= q)]
            pr, qr = pairs(p, q, x.tz)
            n = 1 if tier == "quick" and group["k"] == "pfs" else max(len(pr), len(qr))
            for k in range(n):
                if tier == "quick" and k and (i + j + k) % 3:
                    continue
                (pn, pv), (qn, qv) = pr[k % len(pr)], qr[k % len(qr)]
                if tier == "quick" and group["k"] == "pfs" and (i + j) % 3:
                    continue
                with rec.case(p=i, q=j, pn=pn, qn=qn):
                    check(lambda: a.loc[pv:qv], want, f"loc[{pv}:{qv}]")
    rec.sample({"group": group, "bounds": [str(real.stamp(p, x.tz)) for p in points(x)]})
    # partial strings
    for res in ("D", "MS", "YS"):
        fmt = {"D": "%Y-%m-%d", "MS": "%Y-%m", "YS": "%Y"}[res]
        vals = {}
        for t in points(x):
            d = real.stamp(t, x.tz).date()
            s = cal.floor_date(d, res) if res != "D" else d
            e = cal.add_date(s, res, 1) if res != "D" else d + dt.timedelta(days=1)
            vals[s.strftime(fmt)] = (cal.combine(s, "00:00", x.tz), cal.combine(e, "00:00", x.tz))
        items = list(vals.items())
        for (n1, (s1, e1)), (n2, (s2, e2)) in itertools.product(items, items):
            if group["k"] == "pfs" and tier == "quick" and n1 != n2:
                continue
            with rec.case(p=n1, q=n2):
                check(lambda: a.loc[n1:n2], [t for t in x.starts if s1 <= t < e2], f"loc['{n1}':'{n2}']")
        for n1, (s1, e1) in items:
            if x.n == 1 or res == "D" and x.freq not in cal.FIXED:  # identifies a timestamp, not a period
                continue
            with rec.case(p=n1):
                want = [t for t in x.starts if s1 <= t < e1]
                check(lambda: a.loc[n1], want, f"loc['{n1}']", must=False)


def run_slice(a, m, x, check, rec, tier, group):
    pts = [None, *points(x)]
    for i, p in enumerate(pts):
        for j, q in enumerate(pts):
            want = [t for t in x.starts if (p is None or t >= p) and (q is None or t < q)]
            pr, qr = pairs(p, q, x.tz)
            n = 1 if tier == "quick" and group["k"] == "pfs" else max(len(pr), len(qr))
            for k in range(n):
                if tier == "quick" and (k or group["k"] == "pfs") and (i + j + k) % 3:
                    continue
                (pn, pv), (qn, qv) = pr[k % len(pr)], qr[k % len(qr)]
                with rec.case(p=i, q=j, pn=pn, qn=qn):
                    check(lambda: a.slice[pv:qv], want, f"slice[{pv}:{qv}]")
    rec.sample({"group": group, "bounds": [str(real.stamp(p, x.tz)) for p in points(x)]})
    # anything that is not a range must be rejected
    i = x.real()
    for k, bad in enumerate([slice(None, None, 2), slice(i[0], None, 3), slice(None, None, -1), i[0], [i[0]], i, [True] * x.n]):
        if x.n == 1:
            continue
        with rec.case(bad=k):
            rec.raises(lambda: a.slice[bad], f"slice[{bad!r}]")


def run_sub(a, m, x, check, rec, tier, group):
    """all subsets as mask or list; splits; selections of selections"""
    i = x.real()
    n = x.n
    pfs = group["k"] == "pfs"
    fixed = x.freq in cal.FIXED
    starts = [k for k in range(n + 1) if real.stamp(x.bounds[k], x.tz).time() == real.stamp(x.bounds[0], x.tz).time()]
    if fixed:
        near = sorted({k + o for k in starts for o in (-1, 0, 1) if 0 <= k + o <= n})
        allbits = [tuple(p <= k < q or r <= k < t for k in range(n)) for p in near for q in near if q > p for r, t in ((0, 0), (n - 2, n))]
    else:
        allbits = list(itertools.product([False, True], repeat=n))
    for bits in allbits:
        if pfs and tier == "quick" and sum(bits) in (2, 4):
            continue
        want = [t for t, b in zip(x.starts, bits) if b]
        lst = [t for t, b in zip(i, bits) if b]
        with rec.case(mask=bits):
            check(lambda: a.loc[list(bits)], want, f"loc[mask {bits}]", must=False)
            check(lambda: a.loc[pd.Series(bits, i)], want, f"loc[mask {bits}]", must=False)
            check(lambda: a.loc[lst], want, f"loc[list {bits}]", must=False)
    for step in (2, 3, 4, -1):
        for off in range(2):
            want = x.starts[off::step] if step > 0 else x.starts[::step]
            if len(want) == 1 or n == 1:
                continue
            with rec.case(step=step, off=off):
                rec.raises(lambda: a.loc[i[off] :: step], f"loc[{off}::{step}]")
    full = starts if fixed else list(range(n + 1))
    for p in full[:-1]:
        for q in full[p + 1 :]:
            with rec.case(p=p, q=q):
                ix = i[p:q]
                r = check(lambda: a.loc[ix], x.starts[p:q], f"loc[index {p}:{q}]")
                got, sub = r
                # second selection inside the first one
                for p2 in [k - p for k in full if p <= k < q]:
                    if pfs and tier == "quick" and p2 != 1:
                        continue
                    lo, hi = real.stamp(sub.ix.bounds[p2], x.tz), real.stamp(sub.ix.bounds[-1], x.tz)
                    rec.step(3)
                    g1, g2 = got.slice[lo:hi], got.loc[lo:]
                    e = sub.sub(p2, q - p)
                    cmp = pfsm.compare if pfs else pfm.compare
                    cmp(g1, e, "slice of selection")
                    if not pfs:
                        cmp(g2, e, "loc of selection")
                    if p2:
                        left = got.slice[:lo]
                        if not pfs or tier != "quick":
                            cmp(left, sub.sub(0, p2), "left part of split")
                        rec.outcome("split")
