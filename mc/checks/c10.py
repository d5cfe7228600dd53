"""C10: resampling is path-independent, reversible, and commutes with arithmetic."""

import pandas as pd

from .. import cal, pfm, real
from ..engine import Mismatch
from .c11 import make

PROP = "C10"
TECHNIQUE = "explicit-state exploration: all sequences of resampling operations up to a depth, executed on the real code, every state compared with a calendar model and, on re-visit, with the other paths"
EXPLANATION = (
    "From every initial object (index configuration x kind x structure) all sequences of target frequencies up to the"
    " depth are executed on the real code. Every reached object is compared with the model of the path; objects that"
    " were reached along several paths must be equal; up-then-down must give back the original. Each resampling is also"
    " done before and after addition, scaling, negation, flattening, and taking the volume or revenue."
)
ASSUMPTIONS = ["windows around DST changes, month, quarter and year ends stand for all; values are small exact numbers"]

# tz, freq, sod, start, n, frequencies, depth(quick), depth(thorough)
CONF = [
    ("Europe/Berlin", "15min", "00:00", "2020-03-28", 96 + 92 + 96, ["15min", "h", "D"], 3, 4),
    ("Europe/Berlin", "15min", "06:00", "2020-10-24", 96 + 100 + 96, ["15min", "h", "D"], 3, 4),
    (None, "h", "00:00", "2020-02-28", 24 * 3, ["15min", "h", "D"], 3, 4),
    ("Europe/Berlin", "h", "06:00", "2020-03-28", 23 + 24 * 3, ["15min", "h", "D"], 3, 4),
    ("Asia/Kolkata", "h", "00:00", "2020-04-29", 24 * 4, ["15min", "h", "D"], 3, 4),
    ("Europe/Berlin", "h", "00:00", "2020-02-29", 24 * 34 - 1, ["h", "D", "MS"], 2, 4),
    ("Europe/Berlin", "h", "06:00", "2020-10-01", 24 * 31 + 1 + 24, ["h", "D", "MS"], 2, 4),
    ("Europe/Berlin", "D", "00:00", "2019-12-31", 100, ["h", "D", "MS", "QS"], 2, 3),
    ("America/New_York", "D", "06:00", "2020-01-01", 92, ["D", "MS", "QS"], 3, 4),
    (None, "D", "00:00", "2019-12-30", 370, ["D", "MS", "QS", "YS"], 3, 4),
    ("Europe/Berlin", "D", "06:00", "2020-12-31", 368, ["D", "MS", "QS", "YS"], 3, 4),
    ("Europe/Berlin", "D", "00:00", "2020-01-15", 120, ["D", "MS", "QS-FEB"], 3, 4),
    ("Europe/Berlin", "MS", "00:00", "2019-12-01", 14, ["D", "MS", "QS", "YS"], 3, 4),
    ("Europe/Berlin", "MS", "06:00", "2020-02-01", 3, ["h", "D", "MS", "QS"], 2, 3),
    (None, "MS", "00:00", "2020-01-01", 25, ["D", "MS", "QS", "YS"], 3, 4),
    ("Asia/Kolkata", "MS", "00:00", "2020-03-01", 26, ["MS", "QS", "YS", "YS-APR"], 3, 4),
    ("Europe/Berlin", "QS", "00:00", "2019-10-01", 6, ["D", "MS", "QS", "YS"], 3, 4),
    ("Europe/Berlin", "QS-FEB", "06:00", "2019-11-01", 6, ["D", "MS", "QS-FEB", "YS-FEB"], 3, 4),
    ("Europe/Berlin", "YS", "00:00", "2019-01-01", 2, ["D", "MS", "QS", "YS"], 3, 4),
    ("Europe/Berlin", "YS-APR", "06:00", "2019-04-01", 2, ["D", "MS", "QS", "YS-APR"], 3, 4),
]
SHAPES = ["flat", "nest", "deep"]


def groups(tier):
    out = []
    for c in range(len(CONF)):
        for k, kind in enumerate(pfm.KINDS):
            for j, s in enumerate(SHAPES):
                if tier == "quick" and (c + k + j) % 3:
                    continue  # Latin square: every configuration x kind, x structure, and kind x structure
                out.append({"c": c, "what": kind, "s": s})
        for how in ("sum", "avg"):
            for k, var in enumerate(("pint", "float")):
                if tier == "quick" and (c + k + (how == "sum")) % 2:
                    continue
                out.append({"c": c, "what": how, "s": var})
    return out


def allowed(f1, f2):
    """Resampling f1 -> f2 is defined (different anchors of equally long frequencies are not)."""
    b1, a1 = cal.parse_freq(f1)
    b2, a2 = cal.parse_freq(f2)
    if f1 == f2 or b1 not in ("QS", "YS") or b2 not in ("QS", "YS"):
        return True
    return b1 != b2 and (a1 - a2) % 3 == 0


class Lines:
    """Portfolio lines."""

    def __init__(self, x, kind, s):
        self.m0 = make(kind, x, s)  # with known prices, also where there is no volume
        self.r0 = pfm.build(self.m0)

    def model(self, m, f):
        return m if f == m.ix.freq else m.asfreq(f)

    def real(self, r, f):
        return r.asfreq(f)

    def compare(self, r, m, what):
        pfm.compare(r, m, what)

    def same(self, a, b, what):
        pfm.same(a, b, what)

    def key(self, m):
        return m.key() if m.ix.n < 60 else [m.kind, m.ix.key(), str(real.r12(sum(next(iter(m.data.values())))))]

    def ix(self, m):
        return m.ix


class Series:
    """asfreq_sum and asfreq_avg on series."""

    def __init__(self, x, how, var):
        import portfolyo as pf

        self.how = how
        self.unit = "MWh" if var == "pint" else None
        self.fn = pf.asfreq_sum if how == "sum" else pf.asfreq_avg
        vals = [float((k * 7) % 11 + 1) for k in range(x.n)]
        self.m0 = (x, vals)
        s = pd.Series(vals, x.real(), name="foo")
        self.r0 = s.astype("pint[MWh]") if var == "pint" else s

    def model(self, m, f):
        x, v = m
        up = cal.rank(f) < cal.rank(x.freq)
        if f == x.freq:
            return m
        nb, w = (cal.upsample if up else cal.downsample)(x.bounds, v, f, x.sod, x.tz, self.how)
        return (pfm.Ix(x.tz, f, x.sod, nb), w) if nb else None

    def real(self, r, f):
        out = self.fn(r, f)
        if not len(out):
            raise ValueError("empty")
        return out

    def compare(self, r, m, what):
        x, v = m
        pfm.cmp_index(r.index, x, what)
        if r.name != "foo" or not real.same_unit(r, self.unit):
            raise Mismatch(f"{what}: name {r.name}, dtype {r.dtype}")
        if not real.allclose(real.mags(r), v):
            raise Mismatch(f"{what}: {real.fmt(real.mags(r))} != {real.fmt(v)}")

    def same(self, a, b, what, _=True):
        if not real.allclose(real.mags(a), real.mags(b)) or real.secs(a.index) != real.secs(b.index):
            raise Mismatch(f"{what}: {real.fmt(real.mags(a))} vs {real.fmt(real.mags(b))}")

    def key(self, m):
        return [self.how, m[0].key(), [real.r12(v) for v in m[1][:40]]]

    def ix(self, m):
        return m[0]


def run(group, rec, tier):
    tz, freq, sod, start, n, freqs, dq, dt = CONF[group["c"]]
    depth = dq if tier == "quick" else dt
    x = pfm.ix(tz, freq, sod, start, n)
    sys = (Series if group["what"] in ("sum", "avg") else Lines)(x, group["what"], group["s"])
    # --- all paths
    seen = {}  # model index (frequency and delivery period) and path-minimum -> real object
    done = {(freq,): sys.r0}
    frontier = [((freq,), sys.m0, sys.r0)]
    for level in range(depth):
        new = []
        for path, m, r in frontier:
            for f in freqs:
                if not allowed(path[-1], f):
                    continue
                if f == path[-1] and level == depth - 1 and level:
                    continue
                p2 = path + (f,)
                with rec.case(path=list(p2)):
                    m2 = sys.model(m, f)
                    rec.step()
                    if m2 is None:
                        rec.raises(lambda: sys.real(r, f), f"{p2} without complete period", ValueError)
                        continue
                    r2 = sys.real(r, f)
                    sys.compare(r2, m2, str(p2))
                    rec.state(sys.key(m2))
                    rec.outcome("same" if f == path[-1] else "down" if cal.rank(f) > cal.rank(path[-1]) else "up")
                    # same-frequency resampling changes nothing
                    if f == path[-1]:
                        sys.same(r, r2, f"{p2} identity")
                    # up, then down again
                    if len(p2) >= 3 and p2[-1] == p2[-3] and cal.rank(p2[-2]) < cal.rank(f):
                        sys.same(done[path[:-1]], r2, f"{p2} up and down")
                    # only-down paths: same as going directly
                    if all(cal.rank(a) <= cal.rank(b) for a, b in zip(p2, p2[1:])):
                        if f in seen:
                            sys.same(seen[f], r2, f"{p2} vs direct")
                        else:
                            seen[f] = r2
                    new.append((p2, m2, r2))
        for p2, _, r2 in new:
            done[p2] = r2
        frontier = new
    rec.sample({"group": group, "paths": [list(p) for p, _, _ in frontier[:3]]})
    if isinstance(sys, Lines):
        commute(group, rec, sys, x, freqs)


def commute(group, rec, sys, x, freqs):
    kind, s = group["what"], group["s"]
    m, r = sys.m0, sys.r0
    other = pfm.build(pfm.make(kind, x, 4) if s != "nest" else pfm.nest({"a": pfm.make(kind, x, 4), "z": pfm.make(kind, x, 1)}))
    ops = [
        ("neg", lambda p, f: -p),
        ("scale", lambda p, f: p * 2.5),
        ("div", lambda p, f: p / 4),
        ("flatten", lambda p, f: p.flatten()),
    ]
    if kind in ("vol", "all"):
        ops.append(("volume", lambda p, f: p.volume))
    if kind in ("rev", "all"):
        ops.append(("revenue", lambda p, f: p.revenue))
    for f in freqs:
        if not allowed(x.freq, f) or m.asfreq(f) is None:
            continue
        after = r.asfreq(f)
        for name, op in ops:
            with rec.case(op=name, f=f):
                rec.step()
                pfm.same(op(r, f).asfreq(f), op(after, f), f"{name} then {f}")
        with rec.case(op="add", f=f):
            rec.step()
            pfm.same((r + other).asfreq(f), after + other.asfreq(f), f"add then {f}")
            pfm.same((r - other).asfreq(f), after - other.asfreq(f), f"sub then {f}")
        if r.structure.name == "NESTED":
            for name in r:
                with rec.case(op="child", name=name, f=f):
                    rec.step()
                    pfm.same(r[name].asfreq(f), after[name], f"child {name} then {f}")
